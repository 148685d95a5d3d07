//! C14 E0277 items and results that must stay on their thread may not be produced in parallel
use gfwx::processing::process_maybe_parallel_map_collect;
fn main() {
    let v = process_maybe_parallel_map_collect(0..4u32, |x| std::rc::Rc::new(x), true);
    println!("{}", v.len());
}
