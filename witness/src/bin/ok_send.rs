//! C14 ok blocks of plain samples may move to another thread
use gfwx::processing::image::{Image, ImageChunkMut};
fn is_send<T: Send>(_: &T) {}
fn is_sync<T: Sync>(_: &T) {}
fn main() {
    let mut d = vec![0i16; 16];
    let c: Vec<ImageChunkMut<'_, i16>> = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).collect();
    is_send(&c);
    is_sync(&c);
}
