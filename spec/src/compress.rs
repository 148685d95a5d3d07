use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};

use crate::bits::{BitsIOReader, BitsIOWriter, BitsWriter};
use crate::encode::{decode, encode};
use crate::errors::{CompressError, DecompressError};
use crate::header::{Filter, Header};
use crate::lifting;
use crate::processing::{
    image::Image, process_maybe_parallel_for_each, process_maybe_parallel_map_collect,
    VariableChunksIterator,
};
use crate::quant;

pub fn compress_aux_data(
    aux_data: &mut [i16],
    header: &Header,
    is_chroma: &[bool],
    buffer: &mut [u8],
) -> Result<usize, CompressError> {
    let planes = usize::from(header.layers) * usize::from(header.channels);
    if aux_data.len() < header.get_downsampled_image_size(0) || is_chroma.len() < planes {
        return Err(CompressError::Malformed);
    }
    lift_and_quantize(aux_data, header, is_chroma);
    compress_image_data(aux_data, header, buffer, is_chroma)
}

pub fn decompress_aux_data(
    data: &[u8],
    header: &Header,
    is_chroma: &[bool],
    downsampling: usize,
    test: bool,
    aux_data: &mut [i16],
) -> Result<usize, DecompressError> {
    let next = decompress_image_data(aux_data, header, data, downsampling, test, is_chroma)?;
    if !test {
        unlift_and_dequantize(aux_data, header, is_chroma, downsampling);
    }
    Ok(next)
}

fn plane_quality(header: &Header, is_chroma: bool, chroma_quality: i32) -> i32 {
    if is_chroma {
        chroma_quality
    } else {
        i32::from(header.quality)
    }
}

fn quality_range(header: &Header) -> i32 {
    1024 * i32::from(header.get_boost())
}

fn planes<'a>(
    aux_data: &'a mut [i16],
    header: &'a Header,
    is_chroma: &'a [bool],
    downsampling: usize,
) -> impl Iterator<Item = (Vec<&'a mut [i16]>, &'a bool)> {
    let width = header.get_downsampled_width(downsampling);
    aux_data
        .chunks_mut(header.get_downsampled_channel_size(downsampling))
        .map(move |plane| plane.chunks_mut(width).collect::<Vec<_>>())
        .zip(is_chroma.iter())
}

fn lift_and_quantize(aux_data: &mut [i16], header: &Header, is_chroma: &[bool]) {
    let chroma_quality = header.get_chroma_quality();
    process_maybe_parallel_for_each(
        planes(aux_data, header, is_chroma, 0),
        |(mut plane, &is_chroma)| {
            match header.filter {
                Filter::Linear => lifting::lift_linear(&mut plane),
                Filter::Cubic => lifting::lift_cubic(&mut plane),
            }
            quant::quantize(&mut plane, plane_quality(header, is_chroma, chroma_quality), 0, quality_range(header));
        },
        true,
    );
}

fn unlift_and_dequantize(
    aux_data: &mut [i16],
    header: &Header,
    is_chroma: &[bool],
    downsampling: usize,
) {
    let chroma_quality = header.get_chroma_quality();
    process_maybe_parallel_for_each(
        planes(aux_data, header, is_chroma, downsampling),
        |(mut plane, &is_chroma)| {
            let quality = plane_quality(header, is_chroma, chroma_quality) << downsampling;
            quant::dequantize(&mut plane, quality, 0, quality_range(header));
            match header.filter {
                Filter::Linear => lifting::unlift_linear(&mut plane),
                Filter::Cubic => lifting::unlift_cubic(&mut plane),
            }
        },
        true,
    );
}

/// the largest power of two step with step < max(width, height), at least 1
fn coarsest_step(width: usize, height: usize) -> usize {
    let mut step = 1;
    while step * 2 < width || step * 2 < height {
        step *= 2;
    }
    step
}

fn block_count(header: &Header, block: usize) -> usize {
    let x = (header.width as usize + block - 1) / block;
    let y = (header.height as usize + block - 1) / block;
    x * y * usize::from(header.layers) * usize::from(header.channels)
}

fn compress_image_data(
    aux_data: &mut [i16],
    header: &Header,
    buffer: &mut [u8],
    is_chroma: &[bool],
) -> Result<usize, CompressError> {
    let width = header.width as usize;
    let height = header.height as usize;
    let channels = usize::from(header.layers) * usize::from(header.channels);
    let chroma_quality = header.get_chroma_quality();

    let mut step = coarsest_step(width, height);
    if (step << header.block_size) == 0 {
        return Err(CompressError::Overflow);
    }
    let mut has_dc = true;
    let mut used = 0;
    while step >= 1 {
        let block = step << header.block_size;
        let blocks = block_count(header, block);
        let (_, free) = buffer.split_at_mut(used);
        let table_len = blocks * 4;
        if free.len() < table_len {
            return Err(CompressError::Overflow);
        }
        let (table, space) = free.split_at_mut(table_len);
        let slot = space.len() / blocks;
        if slot == 0 {
            return Err(CompressError::Overflow);
        }

        let results = process_maybe_parallel_map_collect(
            Image::from_slice(aux_data, (width, height), channels)
                .into_chunks_mut(block, step)
                .zip(space.chunks_mut(slot))
                .enumerate(),
            |(index, (chunk, output))| -> Result<(usize, u32), CompressError> {
                let mut output = output;
                let whole = output.len();
                let chroma = is_chroma[chunk.channel];
                let quality = plane_quality(header, chroma, chroma_quality);
                let first = chunk.x_range.0 == 0 && chunk.y_range.0 == 0;
                let mut writer = BitsIOWriter::new(&mut output);
                encode(&chunk, &mut writer, header.encoder, quality, has_dc && first, chroma)?;
                writer.flush_write_word()?;
                Ok((index, (whole - output.len()) as u32))
            },
            false,
        );
        let mut sizes = vec![0; results.len()];
        for result in results {
            match result {
                Ok((index, size)) => sizes[index] = size,
                Err(e) => return Err(e),
            }
        }

        // close the gaps between the blocks
        used += table_len;
        let mut tail = 0;
        for (index, (size, entry)) in sizes.into_iter().zip(table.chunks_mut(4)).enumerate() {
            let mut entry = entry;
            entry.write_u32::<LittleEndian>(size / 4)?;
            let size = size as usize;
            if index > 0 {
                let start = index * slot;
                for i in 0..size {
                    space[tail + i] = space[start + i];
                }
            }
            tail += size;
            used += size;
        }

        has_dc = false;
        step /= 2;
    }
    Ok(used)
}

pub fn decompress_image_data(
    aux_data: &mut [i16],
    header: &Header,
    buffer: &[u8],
    downsampling: usize,
    test: bool,
    is_chroma: &[bool],
) -> Result<usize, DecompressError> {
    let channels = usize::from(header.layers) * usize::from(header.channels);
    if aux_data.len() < header.get_downsampled_image_size(downsampling) || is_chroma.len() < channels {
        return Err(DecompressError::TypeMismatch);
    }
    let chroma_quality = header.get_chroma_quality();

    let mut step = coarsest_step(header.width as usize, header.height as usize);
    if (step << header.block_size) == 0 {
        return Err(DecompressError::Underflow);
    }
    let reduced = (header.get_downsampled_width(downsampling), header.get_downsampled_height(downsampling));

    let mut next = buffer.len() + 1024;
    let mut truncated = false;
    let mut has_dc = true;
    let mut position = 0;
    while (step >> downsampling) >= 1 {
        let blocks = block_count(header, step << header.block_size);
        let table_len = blocks * 4;
        truncated = true;
        if position > buffer.len() {
            return Err(DecompressError::Underflow);
        }
        let (_, rest) = buffer.split_at(position);
        if rest.len() <= table_len {
            break;
        }
        let (table, space) = rest.split_at(table_len);
        let mut sizes = vec![0_usize; blocks];
        for (entry, size) in table.chunks(4).zip(sizes.iter_mut()) {
            let mut entry = entry;
            *size = entry.read_u32::<LittleEndian>().unwrap() as usize * 4;
        }
        let total: usize = sizes.iter().sum();
        let end = position + table_len + total;
        // the next level's table is about four times as long
        next = if step >> downsampling > 1 { end + table_len * 4 } else { end };
        if total <= space.len() {
            truncated = false;
        }

        let small = step >> downsampling;
        let results: Vec<std::io::Result<()>> = process_maybe_parallel_map_collect(
            Image::from_slice(aux_data, reduced, channels)
                .into_chunks_mut(small << header.block_size, small)
                .zip(VariableChunksIterator::new(space, &sizes))
                .enumerate(),
            |(index, (chunk, input))| {
                let mut input = input;
                if test || input.len() < sizes[index] {
                    return Ok(());
                }
                let chroma = is_chroma[chunk.channel];
                let quality = plane_quality(header, chroma, chroma_quality);
                let first = chunk.x_range.0 == 0 && chunk.y_range.0 == 0;
                let mut reader = BitsIOReader::new(&mut input);
                decode(chunk, &mut reader, header.encoder, quality, has_dc && first, chroma)
            },
            false,
        );
        for result in results {
            if result.is_err() {
                return Err(DecompressError::Underflow);
            }
        }

        has_dc = false;
        step /= 2;
        position = end;
    }
    Ok(if truncated { next } else { 0 })
}
