use std::io;

use num_traits::cast::NumCast;

use crate::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
use crate::encode::{signed_code, signed_decode};
use crate::errors::DecompressError;
use crate::header::Header;

#[derive(Clone, Debug, PartialEq)]
pub struct ChannelTransformFactor {
    pub src_channel: usize,
    pub factor: isize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ChannelTransform {
    pub dest_channel: usize,
    pub channel_factors: Vec<ChannelTransformFactor>,
    pub denominator: isize,
    pub is_chroma: bool,
}

pub struct ChannelTransformBuilder {
    dest_channel: usize,
    channel_factors: Vec<ChannelTransformFactor>,
    denominator: isize,
    is_chroma: bool,
}

impl ChannelTransformBuilder {
    pub fn with_dest_channel(dest_channel: usize) -> ChannelTransformBuilder {
        ChannelTransformBuilder { dest_channel, channel_factors: Vec::new(), denominator: 1, is_chroma: false }
    }

    pub fn set_chroma(&mut self) -> &mut Self {
        self.is_chroma = true;
        self
    }

    pub fn add_channel_factor(&mut self, src_channel: usize, factor: isize) -> &mut Self {
        self.channel_factors.push(ChannelTransformFactor { src_channel, factor });
        self
    }

    pub fn set_denominator(&mut self, denominator: isize) -> &mut Self {
        assert!(denominator >= 1);
        self.denominator = denominator;
        self
    }

    pub fn build(&self) -> ChannelTransform {
        ChannelTransform {
            dest_channel: self.dest_channel,
            channel_factors: self.channel_factors.clone(),
            denominator: self.denominator,
            is_chroma: self.is_chroma,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ColorTransformProgram {
    channel_transforms: Vec<ChannelTransform>,
}

fn step(dest_channel: usize, factors: &[(usize, isize)], denominator: isize, is_chroma: bool) -> ChannelTransform {
    let mut channel_factors = Vec::new();
    for &(src_channel, factor) in factors {
        channel_factors.push(ChannelTransformFactor { src_channel, factor });
    }
    ChannelTransform { dest_channel, channel_factors, denominator, is_chroma }
}

impl ColorTransformProgram {
    pub fn new() -> Self {
        ColorTransformProgram { channel_transforms: Vec::new() }
    }

    /// channels 1 and 2 are chroma, nothing is computed
    pub fn yuv444_to_yuv444() -> Self {
        ColorTransformProgram { channel_transforms: vec![step(1, &[], 1, true), step(2, &[], 1, true)] }
    }

    /// R -= G (chroma); B -= G (chroma); G += (R + B) / 4
    pub fn rgb_to_yuv() -> Self {
        ColorTransformProgram {
            channel_transforms: vec![
                step(0, &[(1, -1)], 1, true),
                step(2, &[(1, -1)], 1, true),
                step(1, &[(0, 1), (2, 1)], 4, false),
            ],
        }
    }

    /// R -= G (chroma); B -= (2 G + R) / 2 (chroma); G += (2 B + 3 R) / 8; order B, G, R
    pub fn bgr_to_a710() -> Self {
        ColorTransformProgram {
            channel_transforms: vec![
                step(2, &[(1, -1)], 1, true),
                step(0, &[(1, -2), (2, -1)], 2, true),
                step(1, &[(0, 2), (2, 3)], 8, false),
            ],
        }
    }

    /// the same with order R, G, B
    pub fn rgb_to_a710() -> Self {
        ColorTransformProgram {
            channel_transforms: vec![
                step(0, &[(1, -1)], 1, true),
                step(2, &[(1, -2), (0, -1)], 2, true),
                step(1, &[(2, 2), (0, 3)], 8, false),
            ],
        }
    }

    /// transforms until a negative destination; each: destination, (source, factor)* until a
    /// negative source, denominator, chroma flag; padded to a word
    pub fn decode(buffer: &mut impl io::Read, is_chroma: &mut [bool]) -> Result<Self, DecompressError> {
        let mut buffer = buffer;
        let mut stream = BitsIOReader::new(&mut buffer);
        let mut program = ColorTransformProgram::new();
        loop {
            let dest = signed_decode(&mut stream, 2)?;
            if dest < 0 {
                break;
            }
            let dest = dest as usize;
            if dest >= is_chroma.len() {
                return Err(DecompressError::Malformed);
            }
            let mut factors = Vec::new();
            loop {
                let src = signed_decode(&mut stream, 2)?;
                if src < 0 {
                    break;
                }
                if src as usize >= is_chroma.len() {
                    return Err(DecompressError::Malformed);
                }
                let factor = signed_decode(&mut stream, 2)?;
                factors.push(ChannelTransformFactor { src_channel: src as usize, factor: factor as isize });
            }
            let denominator = signed_decode(&mut stream, 2)?;
            if denominator < 1 || denominator > 32767 {
                return Err(DecompressError::Malformed);
            }
            let chroma = signed_decode(&mut stream, 2)? != 0;
            is_chroma[dest] = chroma;
            program.channel_transforms.push(ChannelTransform {
                dest_channel: dest,
                channel_factors: factors,
                denominator: denominator as isize,
                is_chroma: chroma,
            });
        }
        stream.flush_read_word();
        Ok(program)
    }

    pub fn add_channel_transform(&mut self, channel_transform: ChannelTransform) -> &mut Self {
        self.channel_transforms.push(channel_transform);
        self
    }

    pub fn is_channel_has_transform(&self, channel: usize) -> bool {
        self.channel_transforms
            .iter()
            .any(|t| t.dest_channel == channel && (t.denominator > 1 || !t.channel_factors.is_empty()))
    }

    pub fn iter(&self) -> impl DoubleEndedIterator<Item = &ChannelTransform> {
        self.channel_transforms.iter()
    }

    pub fn encode(&self, channels: usize, buffer: &mut impl io::Write) -> io::Result<Vec<bool>> {
        let mut buffer = buffer;
        let mut stream = BitsIOWriter::new(&mut buffer);
        let mut is_chroma = vec![false; channels];
        for t in &self.channel_transforms {
            signed_code(t.dest_channel as i32, &mut stream, 2)?;
            for f in &t.channel_factors {
                signed_code(f.src_channel as i32, &mut stream, 2)?;
                signed_code(f.factor as i32, &mut stream, 2)?;
            }
            signed_code(-1, &mut stream, 2)?;
            signed_code(t.denominator as i32, &mut stream, 2)?;
            signed_code(t.is_chroma as i32, &mut stream, 2)?;
            is_chroma[t.dest_channel] = t.is_chroma;
        }
        signed_code(-1, &mut stream, 2)?;
        stream.flush_write_word()?;
        Ok(is_chroma)
    }

    /// sample i of channel c is image[position(c) + i * stride]
    fn apply<T, F>(&self, image: &[T], header: &Header, aux: &mut [i16], stride: usize, position: F)
    where
        T: Into<i16> + Copy,
        F: Fn(usize, usize, usize) -> usize,
    {
        assert!(image.len() <= aux.len());
        let boost = header.get_boost() as i16;
        let channels = header.channels as usize;
        let n = header.get_channel_size();
        let mut transformed = vec![false; channels * header.layers as usize];

        for t in &self.channel_transforms {
            let dest = t.dest_channel * n;
            for f in &t.channel_factors {
                if transformed[f.src_channel] {
                    for i in 0..n {
                        aux[dest + i] += aux[f.src_channel * n + i] * f.factor as i16;
                    }
                } else {
                    let factor = f.factor as i16 * boost;
                    let p = position(f.src_channel, channels, n);
                    for i in 0..n {
                        aux[dest + i] += image[p + i * stride].into() * factor;
                    }
                }
            }
            let p = position(t.dest_channel, channels, n);
            for i in 0..n {
                let scaled = aux[dest + i] / t.denominator as i16;
                aux[dest + i] = scaled + image[p + i * stride].into() * boost;
            }
            transformed[t.dest_channel] = true;
        }

        for c in 0..transformed.len() {
            if !transformed[c] {
                let p = position(c, channels, n);
                for i in 0..n {
                    aux[c * n + i] = image[p + i * stride].into() * boost;
                }
            }
        }
    }

    pub fn transform_and_to_planar<T>(&self, image: &[T], header: &Header, aux: &mut [i16])
    where
        T: Into<i16> + Copy,
    {
        self.apply(image, header, aux, header.channels as usize, first_sample);
    }

    pub fn transform<T>(&self, image: &[T], header: &Header, aux: &mut [i16])
    where
        T: Into<i16> + Copy,
    {
        self.apply(image, header, aux, 1, |c, _, n| c * n);
    }

    fn undo(&self, aux: &mut [i16], n: usize) {
        for t in self.channel_transforms.iter().rev() {
            let mut sum = vec![0_i16; n];
            let dest = t.dest_channel * n;
            for f in &t.channel_factors {
                for i in 0..n {
                    sum[i] += aux[f.src_channel * n + i] * f.factor as i16;
                }
            }
            for i in 0..n {
                aux[dest + i] -= sum[i] / t.denominator as i16;
            }
        }
    }

    pub fn detransform_and_to_interleaved<T>(
        &self,
        aux: &mut [i16],
        header: &Header,
        channel_size: usize,
        image: &mut [T],
    ) where
        T: NumCast,
    {
        assert!(image.len() >= aux.len());
        self.undo(aux, channel_size);
        let image = &mut image[..aux.len()];
        let boost = header.get_boost();
        let channels = header.channels as usize;
        for c in 0..channels * header.layers as usize {
            let p = first_sample(c, channels, channel_size);
            for i in 0..channel_size {
                image[p + i * channels] = pixel(aux[c * channel_size + i], boost);
            }
        }
    }

    pub fn detransform<T>(
        &self,
        aux: &mut [i16],
        header: &Header,
        channel_size: usize,
        image: &mut [T],
    ) where
        T: NumCast,
    {
        assert!(image.len() >= aux.len());
        self.undo(aux, channel_size);
        let image = &mut image[..aux.len()];
        let boost = header.get_boost();
        for (dest, src) in image.iter_mut().zip(aux.iter()) {
            *dest = pixel(*src, boost);
        }
    }
}

pub fn interleaved_to_planar<T>(
    input: &[T],
    channels: usize,
    boost: i16,
    output: &mut [i16],
    skip_channels: &[usize],
) where
    T: Into<i16> + Copy,
{
    let n = input.len() / channels;
    let mut skipped = 0;
    for c in 0..channels {
        if skip_channels.contains(&c) {
            skipped += 1;
        } else {
            let p = first_sample(c, channels, n);
            for i in 0..n {
                output[(c - skipped) * n + i] = input[p + i * channels].into() * boost;
            }
        }
    }
}

pub fn planar_to_interleaved<T>(
    input: &[i16],
    channels: usize,
    boost: i16,
    output: &mut [T],
    skip_channels: &[usize],
) where
    T: NumCast,
{
    let n = output.len() / channels;
    let mut skipped = 0;
    for c in 0..channels {
        if skip_channels.contains(&c) {
            skipped += 1;
        } else {
            let p = first_sample(c, channels, n);
            for i in 0..n {
                output[p + i * channels] = pixel(input[(c - skipped) * n + i], boost);
            }
        }
    }
}

/// interleaved layers follow each other; channels alternate within a layer
fn first_sample(channel: usize, channels: usize, n: usize) -> usize {
    (channel / channels) * n * channels + channel % channels
}

fn pixel<T: NumCast>(sample: i16, boost: i16) -> T {
    T::from((sample / boost).min(255).max(0)).unwrap()
}
