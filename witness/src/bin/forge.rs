//! C13 E0451 a block view cannot be forged from parts
use gfwx::processing::image::ImageChunkMut;
fn forge(p: *mut i16) -> ImageChunkMut<'static, i16> {
    ImageChunkMut { data_ptr: p, data_len: 1, phantom_data: std::marker::PhantomData, image_width: 1, channel_size: 1, channel_start: 0,
        x_range: (0, 1), y_range: (0, 1), channel: 0, step: 1 }
}
fn main() {
    let _ = forge as fn(*mut i16) -> ImageChunkMut<'static, i16>;
}
