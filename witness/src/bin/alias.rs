//! C13,C14 E0499 samples under a block view may not be borrowed again
use gfwx::processing::image::{Image, ImageChunkMut};
fn main() {
    let mut d = vec![0i16; 16];
    let mut c: Vec<ImageChunkMut<'_, i16>> = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).collect();
    let e: Vec<ImageChunkMut<'_, i16>> = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).collect();
    c[0][(0, 0)] = 1;
    println!("{}", e[0][(0, 0)]);
}
