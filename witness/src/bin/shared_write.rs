//! C13 E0596 writing through a block needs exclusive access to it
use gfwx::processing::image::Image;
fn main() {
    let mut d = vec![0i16; 16];
    let a = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).next().unwrap();
    a[(0, 0)] = 1;
}
