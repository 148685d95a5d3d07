//! C13,C14 E0382 an image is partitioned at most once
use gfwx::processing::image::Image;
fn main() {
    let mut d = vec![0i16; 16];
    let i = Image::from_slice(&mut d, (4, 4), 1);
    let a: Vec<_> = i.into_chunks_mut(2, 1).collect();
    let b: Vec<_> = i.into_chunks_mut(2, 1).collect();
    println!("{}", a.len() + b.len());
}
