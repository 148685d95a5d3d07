//! C14 E0594 an action may not write to captured variables
use gfwx::processing::process_maybe_parallel_for_each;
fn main() {
    let mut n = 0u32;
    process_maybe_parallel_for_each(0..4u32, |x| n += x, true);
    println!("{}", n);
}
