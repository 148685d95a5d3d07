//! C13 ok the legal use of an image view
use gfwx::processing::image::Image;
fn main() {
    let mut d = vec![0i16; 16];
    let n = Image::from_slice(&mut d, (4, 4), 1).into_chunks_mut(2, 1).map(|mut c| { let p = (c.y_range.0, c.x_range.0); c[p] = 1; c[p] as usize }).sum::<usize>();
    d.push(n as i16);
    let mut e = vec![0i16; 4];
    let mut rows: Vec<&mut [i16]> = e.chunks_mut(2).collect();
    gfwx::lifting::lift_linear(&mut rows);
}
