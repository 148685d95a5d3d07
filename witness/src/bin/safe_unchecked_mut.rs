//! C13 E0133 unchecked pixel writes are not callable from safe code
use gfwx::processing::image::Image;
fn main() {
    let mut d = vec![0i16; 16];
    let mut a = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).next().unwrap();
    *a.get_unchecked_mut(0, 0) = 1;
}
