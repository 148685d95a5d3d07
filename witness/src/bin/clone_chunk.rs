//! C13,C14 E0382 a block view is not copied
use gfwx::processing::image::Image;
fn main() {
    let mut d = vec![0i16; 16];
    let a = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).next().unwrap();
    let b = a;
    println!("{} {}", a.step, b.step);
}
