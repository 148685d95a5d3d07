//! C14 E0277 an action with unsynchronised shared state may not run in parallel
use gfwx::processing::process_maybe_parallel_for_each;
fn main() {
    let n = std::cell::Cell::new(0u32);
    process_maybe_parallel_for_each(0..4u32, |x| n.set(n.get() + x), true);
}
