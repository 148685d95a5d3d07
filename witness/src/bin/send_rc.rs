//! C14 E0277 a block of samples that must stay on their thread may not be sent to another
use gfwx::processing::image::{Image, ImageChunkMut};
fn is_send<T: Send>(_: &T) {}
fn main() {
    let mut d = vec![std::rc::Rc::new(0i16); 16];
    let c: Vec<ImageChunkMut<'_, std::rc::Rc<i16>>> = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).collect();
    is_send(&c);
}
