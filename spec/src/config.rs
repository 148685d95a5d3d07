//! thresholds steer scheduling only; their values are not part of the behaviour
pub struct Config;

pub struct MultithreadingFactors {
    pub linear_horizontal_lifting: usize,
    pub linear_vertical_lifting: usize,
    pub cubic_horizontal_lifting: usize,
    pub cubic_vertical_lifting: usize,
    pub quantization: usize,
    pub compress: usize,
}
