//! C13 E0616 a block view cannot be pointed elsewhere
use gfwx::processing::image::Image;
fn main() {
    let mut d = vec![0i16; 16];
    let mut a = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).next().unwrap();
    a.data_len = 1 << 20;
}
