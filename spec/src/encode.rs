use std::io;

use crate::bits;
use crate::header::Encoder;
use crate::processing::image::ImageChunkMut;

/// quotient in unary (zeros closed by a one), remainder in `pot` bits; quotients of 12 and more
/// are escaped by twelve zeros and the excess is coded with pot + 4 (at most 24)
pub fn unsigned_code(x: u32, stream: &mut impl bits::BitsWriter, pot: u32) -> io::Result<()> {
    let quotient = x >> pot;
    if quotient < 12 {
        stream.put_bits(0, quotient)?;
        let remainder = x & !(!0u32 << pot);
        stream.put_bits((1 << pot) | remainder, 1 + pot)
    } else {
        stream.put_bits(0, 12)?;
        let next = if pot < 20 { pot + 4 } else { 24 };
        unsigned_code(x - (12 << pot), stream, next)
    }
}

/// the escape depth is limited: pot grows to 108 while at most 24 remainder bits are read
pub fn unsigned_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result<u32> {
    let zeros = stream.get_zeros(12)?;
    let bits = pot.min(24);
    if zeros == 12 && pot < 108 {
        let rest = unsigned_decode(stream, (pot + 4).min(108))?;
        return Ok((12u32 << bits).wrapping_add(rest));
    }
    if bits == 0 {
        return Ok(zeros);
    }
    let remainder = stream.get_bits(bits)?;
    Ok((zeros << bits).wrapping_add(remainder))
}

/// 0, 1, -1, 2, -2 ... -> 0, 1, 2, 3, 4
pub fn interleaved_code(x: i32, stream: &mut impl bits::BitsWriter, pot: u32) -> io::Result<()> {
    let folded = if x > 0 { 2 * x - 1 } else { -2 * x };
    unsigned_code(folded as u32, stream, pot)
}

pub fn interleaved_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result<i32> {
    let folded = unsigned_decode(stream, pot)? as i32;
    if folded & 1 == 0 {
        Ok(-folded / 2)
    } else {
        Ok((folded + 1) / 2)
    }
}

/// magnitude, then (unless zero) a bit that is one for positive values
pub fn signed_code(x: i32, stream: &mut impl bits::BitsWriter, pot: u32) -> io::Result<()> {
    unsigned_code(x.abs() as u32, stream, pot)?;
    if x == 0 {
        return Ok(());
    }
    stream.put_bits((x > 0) as u32, 1)
}

pub fn signed_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result<i32> {
    let magnitude = unsigned_decode(stream, pot)? as i32;
    if magnitude == 0 {
        return Ok(0);
    }
    let positive = stream.get_bits(1)? != 0;
    Ok(if positive { magnitude } else { -magnitude })
}

fn sq(v: u32) -> u32 {
    v.wrapping_mul(v)
}

struct Mean {
    sum: u32,
    sum2: u32,
    count: u32,
}

impl Mean {
    fn add(&mut self, v: i16, weight: u32) {
        let m = v.abs() as u32;
        self.sum += m * weight;
        self.sum2 += sq(m.min(4096)) * weight;
        self.count += weight;
    }
}

/// weighted mean (times 16, rounded) of magnitudes and clamped squared magnitudes around (x, y)
pub unsafe fn get_context(image: &ImageChunkMut<'_, i16>, x: i32, y: i32) -> (u32, u32) {
    let s = image.step as i32;
    let (x0, x1) = (image.x_range.0 as i32, image.x_range.1 as i32);
    let (y0, y1) = (image.y_range.0 as i32, image.y_range.1 as i32);
    let at = |py: i32, px: i32| *image.get_unchecked(py as usize, px as usize);
    let mut m = Mean { sum: 0, sum2: 0, count: 0 };

    // parent: same position on the next coarser lattice, pulled inside the block
    let px = x0 + (x & !(s * 2)) + (x & s);
    let py = y0 + (y & !(s * 2)) + (y & s);
    let px = if px >= x1 { px - s * 2 } else { px };
    let py = if py >= y1 { py - s * 2 } else { py };
    m.add(at(py, px), 2);

    // siblings of the same 2x2 cell already coded
    if y & s != 0 && (x | s) < x1 - x0 {
        m.add(at(y0 + y - s, x0 + (x | s)), 2);
        if x & s != 0 {
            m.add(at(y0 + y, x0 + x - s), 2);
        }
    }

    // same-kind neighbours at two steps, then at four
    if y >= s * 2 && x >= s * 2 {
        m.add(at(y0 + y - s * 2, x0 + x), 4);
        m.add(at(y0 + y, x0 + x - s * 2), 4);
        m.add(at(y0 + y - s * 2, x0 + x - s * 2), 2);
        if x + s * 2 < x1 - x0 {
            m.add(at(y0 + y - s * 2, x0 + x + s * 2), 2);
        }
        if y >= s * 4 && x >= s * 4 {
            m.add(at(y0 + y - s * 4, x0 + x), 2);
            m.add(at(y0 + y, x0 + x - s * 4), 2);
            m.add(at(y0 + y - s * 4, x0 + x - s * 4), 1);
            if x + s * 4 < x1 - x0 {
                m.add(at(y0 + y - s * 4, x0 + x + s * 4), 1);
            }
        }
    }

    let half = m.count / 2;
    ((m.sum * 16 + half) / m.count, (m.sum2 * 16 + half) / m.count)
}

/// which code carries a coefficient in a context
fn encode_s(
    stream: &mut impl bits::BitsWriter,
    s: i32,
    sum_sq: u32,
    context: (u32, u32),
    is_chroma: bool,
) -> io::Result<()> {
    let c = context.1;
    if sum_sq < 2 * c + (if is_chroma { 250 } else { 100 }) {
        return interleaved_code(s, stream, 0);
    }
    if sum_sq < 2 * c + 950 {
        return interleaved_code(s, stream, 1);
    }
    if sum_sq < 3 * c + 3000 {
        return if sum_sq < 5 * c + 400 { signed_code(s, stream, 1) } else { interleaved_code(s, stream, 2) };
    }
    if sum_sq < 3 * c + 12000 {
        return if sum_sq < 5 * c + 3000 { signed_code(s, stream, 2) } else { interleaved_code(s, stream, 3) };
    }
    if sum_sq < 4 * c + 44000 {
        return if sum_sq < 6 * c + 12000 { signed_code(s, stream, 3) } else { interleaved_code(s, stream, 4) };
    }
    signed_code(s, stream, 4)
}

fn get_s(
    stream: &mut impl bits::BitsReader,
    sum_sq: u32,
    context: (u32, u32),
    is_chroma: bool,
) -> io::Result<i32> {
    let c = context.1;
    if sum_sq < 2 * c + (if is_chroma { 250 } else { 100 }) {
        return interleaved_decode(stream, 0);
    }
    if sum_sq < 2 * c + 950 {
        return interleaved_decode(stream, 1);
    }
    if sum_sq < 3 * c + 3000 {
        return if sum_sq < 5 * c + 400 { signed_decode(stream, 1) } else { interleaved_decode(stream, 2) };
    }
    if sum_sq < 3 * c + 12000 {
        return if sum_sq < 5 * c + 3000 { signed_decode(stream, 2) } else { interleaved_decode(stream, 3) };
    }
    if sum_sq < 4 * c + 44000 {
        return if sum_sq < 6 * c + 12000 { signed_decode(stream, 3) } else { interleaved_decode(stream, 4) };
    }
    signed_decode(stream, 4)
}

/// decaying moments select the run coder; it changes only on a zero while off or a value while on
fn get_run_coder_fast(context: (u32, u32), s: i32, run_coder: u32) -> u32 {
    if (s == 0) != (run_coder == 0) {
        return run_coder;
    }
    let c = context.0;
    if c < 1 {
        4
    } else if c < 2 {
        3
    } else if c < 4 {
        2
    } else if c < 8 {
        1
    } else {
        0
    }
}

fn get_run_coder(context: (u32, u32), s: i32, q: i32, run_coder: u32, sum_sq: u32) -> u32 {
    if (s == 0) != (run_coder == 0) {
        return run_coder;
    }
    let (c, c2) = context;
    if q == 1024 {
        return if c < 2 { 1 } else { 0 };
    }
    if c < 4 && c2 < 2 {
        4
    } else if c < 8 && c2 < 4 {
        3
    } else if 2 * sum_sq < 3 * c2 + 48 {
        2
    } else if 2 * sum_sq < 5 * c2 + 32 {
        1
    } else {
        0
    }
}

fn decay(context: (u32, u32), s: i32) -> (u32, u32) {
    let t = s.abs() as u32;
    (
        ((context.0 * 15 + 7) >> 4) + t,
        ((context.1 * 15 + 7) >> 4) + sq(t.min(4096)),
    )
}

fn initial_run_coder(scheme: Encoder, q: i32, step: i32) -> u32 {
    let runs = scheme == Encoder::Turbo && (q == 0 || (step < 2048 && q * step < 2048));
    if runs {
        1
    } else {
        0
    }
}

pub fn encode(
    image: &ImageChunkMut<'_, i16>,
    stream: &mut impl bits::BitsWriter,
    scheme: Encoder,
    q: i32,
    has_dc: bool,
    is_chroma: bool,
) -> io::Result<()> {
    let step = image.step as i32;
    let (x0, y0) = (image.x_range.0 as i32, image.y_range.0 as i32);
    let width = (image.x_range.1 - image.x_range.0) as i32;
    let height = (image.y_range.1 - image.y_range.0) as i32;

    if has_dc && width > 0 && height > 0 {
        let dc = unsafe { *image.get_unchecked(y0 as usize, x0 as usize) };
        signed_code(i32::from(dc), stream, 4)?;
    }

    let mut context = (0, 0);
    let mut run = 0;
    let mut run_coder = initial_run_coder(scheme, q, step);

    for y in (0..height).step_by(step as usize) {
        let x_step = if (y & step) != 0 { step } else { step * 2 };
        for x in ((x_step - step)..width).step_by(x_step as usize) {
            let value = i32::from(unsafe { *image.get_unchecked((y0 + y) as usize, (x0 + x) as usize) });

            // zeros are counted while runs are coded
            if run_coder != 0 && value == 0 {
                run += 1;
                continue;
            }
            if scheme == Encoder::Turbo {
                if run_coder == 0 {
                    interleaved_code(value, stream, 1)?;
                } else {
                    unsigned_code(run as u32, stream, 1)?;
                    run = 0;
                    interleaved_code(if value < 0 { value + 1 } else { value }, stream, 1)?;
                }
                continue;
            }
            // a value that ends a run is not zero: negatives move up by one
            let mut s = value;
            if run_coder != 0 {
                unsigned_code(run as u32, stream, run_coder)?;
                run = 0;
                if s < 0 {
                    s += 1;
                }
            }
            if scheme == Encoder::Contextual {
                context = unsafe { get_context(image, x, y) };
            }
            let sum_sq = sq(context.0);
            encode_s(stream, s, sum_sq, context, is_chroma)?;
            if scheme == Encoder::Fast {
                context = decay(context, s);
                run_coder = get_run_coder_fast(context, s, run_coder);
            } else {
                run_coder = get_run_coder(context, s, q, run_coder, sum_sq);
            }
        }
    }

    if run != 0 {
        unsigned_code(run as u32, stream, run_coder)?;
    }
    Ok(())
}

pub fn decode(
    image: ImageChunkMut<'_, i16>,
    stream: &mut impl bits::BitsReader,
    scheme: Encoder,
    q: i32,
    has_dc: bool,
    is_chroma: bool,
) -> io::Result<()> {
    let mut image = image;
    let step = image.step as i32;
    let (x0, y0) = (image.x_range.0 as i32, image.y_range.0 as i32);
    let width = (image.x_range.1 - image.x_range.0) as i32;
    let height = (image.y_range.1 - image.y_range.0) as i32;

    if has_dc && width > 0 && height > 0 {
        let dc = signed_decode(stream, 4)?;
        unsafe { *image.get_unchecked_mut(y0 as usize, x0 as usize) = dc as i16 };
    }

    let mut context = (0, 0);
    // zeros still to deliver; -1: the run length is not known yet
    let mut run = -1;
    let mut run_coder = initial_run_coder(scheme, q, step);

    for y in (0..height).step_by(step as usize) {
        let x_step = if (y & step) != 0 { step } else { step * 2 };
        for x in ((x_step - step)..width).step_by(x_step as usize) {
            if run_coder != 0 && run == -1 {
                run = unsigned_decode(stream, run_coder)? as i32;
            }
            let mut s = 0;
            if run > 0 {
                run -= 1;
            } else {
                if scheme == Encoder::Turbo {
                    s = interleaved_decode(stream, 1)?;
                } else {
                    if scheme == Encoder::Contextual {
                        context = unsafe { get_context(&image, x, y) };
                    }
                    let sum_sq = sq(context.0);
                    s = get_s(stream, sum_sq, context, is_chroma)?;
                    if scheme == Encoder::Fast {
                        context = decay(context, s);
                        run_coder = get_run_coder_fast(context, s, run_coder);
                    } else {
                        run_coder = get_run_coder(context, s, q, run_coder, sum_sq);
                    }
                }
                if run == 0 && s <= 0 {
                    s -= 1;
                }
                run = -1;
            }
            unsafe { *image.get_unchecked_mut((y0 + y) as usize, (x0 + x) as usize) = s as i16 };
        }
    }
    Ok(())
}
