mod cubic;
mod linear;

pub use self::cubic::{lift_cubic, unlift_cubic};
pub use self::linear::{lift_linear, unlift_linear};

use crate::processing::process_maybe_parallel_for_each;

fn rectangular(image: &[&mut [i16]]) {
    assert!(image.iter().all(|row| row.len() == image[0].len()));
    let _ = image[0].len();
}

/// levels from fine to coarse: rows of the level's lattice first, then columns
fn forward(
    image: &mut [&mut [i16]],
    rows: fn(&mut [i16], usize),
    columns: fn(&mut [&mut [i16]], usize),
) {
    rectangular(image);
    let mut step = 1;
    while step < image.len() || step < image[0].len() {
        if step < image[0].len() {
            process_maybe_parallel_for_each(image.iter_mut().step_by(step), |row| rows(row, step), false);
        }
        if step < image.len() {
            columns(image, step);
        }
        step *= 2;
    }
}

/// the same levels from coarse to fine: columns first, then rows
fn backward(
    image: &mut [&mut [i16]],
    rows: fn(&mut [i16], usize),
    columns: fn(&mut [&mut [i16]], usize),
) {
    rectangular(image);
    let mut step = 1;
    while 2 * step < image.len() || 2 * step < image[0].len() {
        step *= 2;
    }
    while step > 0 {
        if step < image.len() {
            columns(image, step);
        }
        if step < image[0].len() {
            process_maybe_parallel_for_each(image.iter_mut().step_by(step), |row| rows(row, step), false);
        }
        step /= 2;
    }
}
