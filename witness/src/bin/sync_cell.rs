//! C14 E0277 a block of samples with unsynchronised interior mutability may not be shared between threads
use gfwx::processing::image::{Image, ImageChunkMut};
fn is_sync<T: Sync>(_: &T) {}
fn main() {
    let mut d: Vec<std::cell::Cell<i16>> = (0..16).map(|_| std::cell::Cell::new(0i16)).collect();
    let c: Vec<ImageChunkMut<'_, std::cell::Cell<i16>>> = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).collect();
    is_sync(&c);
}
