//! Reference model of the codec, written from the format description and the documentation.
//!
//! It is never run: `../lib` extracts the value graph of every function here and in /repo from
//! the compiler's MIR and compares them.  It is sequential (parallel helpers are plain
//! iteration) and fully bounds checked (unchecked access in /repo corresponds to an index
//! that must be in range here).
#![allow(clippy::all)]

#[macro_use]
extern crate num_derive;

pub mod bits;
pub mod color_transform;
pub mod compress;
pub mod config;
pub mod encode;
pub mod errors;
pub mod header;
pub mod lifting;
pub mod processing;
pub mod quant;

use crate::color_transform::ColorTransformProgram;
use crate::compress::{compress_aux_data, decompress_aux_data};
use crate::errors::{CompressError, DecompressError};
use crate::header::Header;

/// header | colour program | coefficients, all in `buffer`; returns the number of bytes used
pub fn compress_simple(
    image: &[u8],
    header: &Header,
    color_transform: &ColorTransformProgram,
    buffer: &mut [u8],
) -> Result<usize, CompressError> {
    let total = buffer.len();
    let mut rest = buffer;
    header.encode(&mut rest)?;
    let planes = header.channels as usize * header.layers as usize;
    let is_chroma = color_transform.encode(planes, &mut rest)?;
    let used = total - rest.len();

    let mut aux = vec![0i16; header.get_image_size()];
    color_transform.transform_and_to_planar(image, header, &mut aux);
    let payload = compress_aux_data(&mut aux, header, &is_chroma, rest)?;
    Ok(used + payload)
}

/// `data` starts with the colour program (the header is already consumed)
pub fn decompress_simple(
    data: &[u8],
    header: &Header,
    downsampling: usize,
    test: bool,
    buffer: &mut [u8],
) -> Result<usize, DecompressError> {
    let mut rest = data;
    let mut is_chroma = vec![false; header.layers as usize * header.channels as usize];
    let program = ColorTransformProgram::decode(&mut rest, &mut is_chroma)?;
    let mut aux = vec![0i16; header.get_downsampled_image_size(downsampling)];
    let next = decompress_aux_data(rest, header, &is_chroma, downsampling, test, &mut aux)?;
    if test {
        return Ok(next);
    }
    let plane = header.get_downsampled_channel_size(downsampling);
    program.detransform_and_to_interleaved(&mut aux, header, plane, buffer);
    Ok(next)
}
