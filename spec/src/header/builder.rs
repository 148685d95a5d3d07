use super::{Encoder, Filter, Header, HeaderErr, Intent, Quantization};

pub struct HeaderBuilder {
    pub width: u32,
    pub height: u32,
    pub layers: u16,
    pub channels: u16,
    pub quality: u16,
    pub chroma_scale: u8,
    pub block_size: u8,
    pub filter: Filter,
    pub encoder: Encoder,
    pub intent: Intent,
    pub metadata_size: u32,
}

impl HeaderBuilder {
    pub fn build(self) -> Result<Header, HeaderErr> {
        let side = |v: u32| v >= 1 && v < 1 << 30;
        if !side(self.width) || !side(self.height) {
            return Err(super::wrong("size"));
        }
        if self.layers < 1 || self.channels < 1 || self.chroma_scale < 1 {
            return Err(super::wrong("layers, channels, chroma scale"));
        }
        if self.metadata_size & 3 != 0 {
            return Err(super::wrong("metadata size"));
        }
        // below 2^60
        let channel_size = self.width as usize * self.height as usize;
        let layer_size = match channel_size.checked_mul(self.layers as usize) {
            Some(v) => v,
            None => return Err(super::wrong("image size")),
        };
        let image_size = match layer_size.checked_mul(self.channels as usize) {
            Some(v) => v,
            None => return Err(super::wrong("image size")),
        };
        if self.quality < 1 || self.quality > 1024 {
            return Err(super::wrong("quality"));
        }
        if self.block_size < 2 || self.block_size > 30 {
            return Err(super::wrong("block size"));
        }
        Ok(Header {
            version: 1,
            width: self.width,
            height: self.height,
            layers: self.layers,
            channels: self.channels,
            bit_depth: 8,
            is_signed: false,
            quality: self.quality,
            chroma_scale: self.chroma_scale,
            block_size: self.block_size,
            filter: self.filter,
            quantization: Quantization::Scalar,
            encoder: self.encoder,
            intent: self.intent,
            metadata_size: self.metadata_size,
            channel_size,
            image_size,
        })
    }
}
