//! C14 ok pure actions may run in parallel
use gfwx::processing::{process_maybe_parallel_for_each, process_maybe_parallel_map_collect};
fn main() {
    let mut d = [0i16; 4];
    process_maybe_parallel_for_each(d.iter_mut(), |x| *x += 1, true);
    let v = process_maybe_parallel_map_collect(0..4u32, |x| x + 1, true);
    println!("{}", v.len());
}
