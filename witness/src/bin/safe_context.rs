//! C13 E0133 the unchecked context computation is not callable from safe code
use gfwx::processing::image::Image;
fn main() {
    let mut d = vec![0i16; 16];
    let a = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).next().unwrap();
    println!("{:?}", gfwx::encode::get_context(&a, 1, 1));
}
