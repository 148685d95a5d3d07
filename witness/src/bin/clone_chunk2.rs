//! C13,C14 E0277 a block view is not cloned
use gfwx::processing::image::ImageChunkMut;
fn is_clone<T: Clone>() {}
fn main() {
    is_clone::<ImageChunkMut<'static, i16>>();
}
