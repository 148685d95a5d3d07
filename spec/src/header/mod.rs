use std::io;

use crate::errors::HeaderErr;
use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
use num_traits::{FromPrimitive, ToPrimitive};

mod builder;

pub use self::builder::HeaderBuilder;

pub const QUALITY_MAX: u16 = 1024;

const MAGIC: u32 = u32::from_le_bytes(*b"GFWX");

#[derive(Clone, Copy, Debug, PartialEq, ToPrimitive, FromPrimitive)]
pub enum Filter {
    Linear = 0,
    Cubic = 1,
}

#[derive(Clone, Copy, Debug, PartialEq, ToPrimitive, FromPrimitive)]
pub enum Quantization {
    Scalar = 0,
}

#[derive(Clone, Copy, Debug, PartialEq, ToPrimitive, FromPrimitive)]
pub enum Encoder {
    Turbo = 0,
    Fast = 1,
    Contextual = 2,
}

#[derive(Clone, Copy, Debug, PartialEq, ToPrimitive, FromPrimitive)]
pub enum Intent {
    Generic = 0,
    RGB = 7,
    RGBA = 8,
    BGR = 10,
    BGRA = 11,
    YUV444 = 12,
}

#[derive(Debug, PartialEq)]
pub struct Header {
    pub version: u32,
    pub width: u32,
    pub height: u32,
    pub layers: u16,
    pub channels: u16,
    pub bit_depth: u8,
    pub is_signed: bool,
    pub quality: u16,
    pub chroma_scale: u8,
    pub block_size: u8,
    pub filter: Filter,
    pub quantization: Quantization,
    pub encoder: Encoder,
    pub intent: Intent,
    pub metadata_size: u32,
    pub channel_size: usize,
    pub image_size: usize,
}

fn wrong(what: &str) -> HeaderErr {
    HeaderErr::WrongValue(String::from(what))
}

impl Header {
    /// 32 bytes, little endian; every field is checked when it is read
    pub fn decode(encoded: &mut impl io::Read) -> Result<Header, HeaderErr> {
        let magic = encoded.read_u32::<LittleEndian>()?;
        if magic != MAGIC {
            return Err(HeaderErr::WrongMagic);
        }
        let version = encoded.read_u32::<LittleEndian>()?;
        let width = encoded.read_u32::<LittleEndian>()?;
        let height = encoded.read_u32::<LittleEndian>()?;
        let channels = encoded.read_u16::<LittleEndian>()?;
        if channels == 0xffff {
            return Err(wrong("channels"));
        }
        let layers = encoded.read_u16::<LittleEndian>()?;
        if layers == 0xffff {
            return Err(wrong("layers"));
        }
        let packed = encoded.read_u24::<LittleEndian>()?;
        let block_size = (packed & 31) as u8 + 2;
        if (packed >> 5) & 255 == 255 {
            return Err(wrong("chroma_scale"));
        }
        let chroma_scale = ((packed >> 5) & 255) as u8 + 1;
        let quality = ((packed >> 13) & 1023) as u16 + 1;
        let is_signed = (packed >> 23) == 1;
        let depth = encoded.read_u8()?;
        if depth == 255 {
            return Err(wrong("bit_depth"));
        }
        let intent = match Intent::from_u8(encoded.read_u8()?) {
            Some(v) => v,
            None => return Err(wrong("intent")),
        };
        let encoder = match Encoder::from_u8(encoded.read_u8()?) {
            Some(v) => v,
            None => return Err(wrong("encoder")),
        };
        let quantization = match Quantization::from_u8(encoded.read_u8()?) {
            Some(v) => v,
            None => return Err(wrong("quantization")),
        };
        let filter = match Filter::from_u8(encoded.read_u8()?) {
            Some(v) => v,
            None => return Err(wrong("filter")),
        };
        let metadata_words = encoded.read_u32::<LittleEndian>()?;
        if metadata_words >= 1 << 30 {
            return Err(wrong("metadata_size"));
        }
        if is_signed || depth + 1 > 8 {
            return Err(wrong("bit_depth and is_signed"));
        }
        let header = HeaderBuilder {
            width,
            height,
            layers: layers + 1,
            channels: channels + 1,
            quality,
            chroma_scale,
            block_size,
            filter,
            encoder,
            intent,
            metadata_size: metadata_words * 4,
        }
        .build()?;
        Ok(Header { version, bit_depth: depth + 1, is_signed, quantization, ..header })
    }

    pub fn encode(&self, buff: &mut impl io::Write) -> io::Result<()> {
        buff.write_u32::<LittleEndian>(MAGIC)?;
        buff.write_u32::<LittleEndian>(self.version)?;
        buff.write_u32::<LittleEndian>(self.width)?;
        buff.write_u32::<LittleEndian>(self.height)?;
        buff.write_u16::<LittleEndian>(self.channels - 1)?;
        buff.write_u16::<LittleEndian>(self.layers - 1)?;
        let sign: u32 = if self.is_signed { 1 << 23 } else { 0 };
        let quality = u32::from(self.quality - 1) << 13;
        let chroma = u32::from(self.chroma_scale - 1) << 5;
        let block = u32::from(self.block_size - 2);
        buff.write_u24::<LittleEndian>(block | chroma | quality | sign)?;
        buff.write_u8(self.bit_depth - 1)?;
        buff.write_u8(self.intent.to_u8().unwrap())?;
        buff.write_u8(self.encoder.to_u8().unwrap())?;
        buff.write_u8(self.quantization.to_u8().unwrap())?;
        buff.write_u8(self.filter.to_u8().unwrap())?;
        buff.write_u32::<LittleEndian>(self.metadata_size / 4)
    }

    pub fn get_decompress_buffer_size(&self, downsampling: usize) -> usize {
        let bytes_per_sample = ((self.bit_depth + 7) / 8) as usize;
        self.get_downsampled_image_size(downsampling) * bytes_per_sample
    }

    pub fn get_boost(&self) -> i16 {
        if self.quality != QUALITY_MAX {
            8
        } else {
            1
        }
    }

    pub fn get_downsampled_width(&self, downsampling: usize) -> usize {
        let f = 1usize << downsampling;
        (self.width as usize + f - 1) >> downsampling
    }

    pub fn get_downsampled_height(&self, downsampling: usize) -> usize {
        let f = 1usize << downsampling;
        (self.height as usize + f - 1) >> downsampling
    }

    pub fn get_downsampled_channel_size(&self, downsampling: usize) -> usize {
        self.get_downsampled_height(downsampling) * self.get_downsampled_width(downsampling)
    }

    pub fn get_channel_size(&self) -> usize {
        self.channel_size
    }

    pub fn get_chroma_quality(&self) -> i32 {
        let scale = i32::from(self.chroma_scale);
        let rounded = (i32::from(self.quality) + scale / 2) / scale;
        rounded.max(1)
    }

    pub fn get_image_size(&self) -> usize {
        self.image_size
    }

    pub fn get_downsampled_image_size(&self, downsampling: usize) -> usize {
        self.get_downsampled_channel_size(downsampling)
            * self.channels as usize
            * self.layers as usize
    }
}
