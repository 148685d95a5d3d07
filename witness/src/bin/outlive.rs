//! C13 E0597 a block may not outlive the samples it views
use gfwx::processing::image::{Image, ImageChunkMut};
fn main() {
    let c: Vec<ImageChunkMut<'_, i16>>;
    {
        let mut d = vec![0i16; 16];
        c = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).collect();
    }
    println!("{}", c.len());
}
