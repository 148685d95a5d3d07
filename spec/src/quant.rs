use crate::processing::process_maybe_parallel_for_each;

/// level `skip` owns the rows y = k*skip: all multiples of skip in odd rows, the odd multiples
/// of skip in even rows
pub fn quantize(image: &mut [&mut [i16]], quality: i32, min_quality: i32, max_quality: i32) {
    let mut quality = quality;
    let mut skip = 1;
    let _ = image[0].len();
    while skip < image.len() && skip < image[0].len() {
        let q = 1.max(min_quality).max(quality);
        if q >= max_quality {
            return;
        }
        process_maybe_parallel_for_each(
            image.iter_mut().enumerate().step_by(skip),
            |(y, row)| {
                let odd = (y & skip) != 0;
                let first = if odd { 0 } else { skip };
                let stride = if odd { skip } else { 2 * skip };
                for v in row.iter_mut().skip(first).step_by(stride) {
                    *v = (i32::from(*v) * q).wrapping_div(max_quality) as i16;
                }
            },
            false,
        );
        skip *= 2;
        quality = (2 * quality).min(max_quality);
    }
}

pub fn dequantize(image: &mut [&mut [i16]], quality: i32, min_quality: i32, max_quality: i32) {
    let mut quality = quality;
    let mut skip = 1;
    let _ = image[0].len();
    while skip < image.len() && skip < image[0].len() {
        let q = 1.max(min_quality).max(quality);
        if q >= max_quality {
            return;
        }
        process_maybe_parallel_for_each(
            image.iter_mut().enumerate().step_by(skip),
            |(y, row)| {
                let odd = (y & skip) != 0;
                let first = if odd { 0 } else { skip };
                let stride = if odd { skip } else { 2 * skip };
                for v in row.iter_mut().skip(first).step_by(stride) {
                    let s = i32::from(*v);
                    let scaled = s * max_quality;
                    let half = max_quality / 2;
                    let rounded = if s > 0 {
                        scaled + half
                    } else if s < 0 {
                        scaled - half
                    } else {
                        scaled
                    };
                    *v = rounded.wrapping_div(q) as i16;
                }
            },
            false,
        );
        skip *= 2;
        quality = (2 * quality).min(max_quality);
    }
}
