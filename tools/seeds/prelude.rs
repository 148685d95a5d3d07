#![allow(dead_code, unused_imports, unused_mut)]
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
use gfwx::processing::image::Image;
use gfwx::*;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn i16(&mut self, m: i64) -> i16 {
        ((self.next() % (2 * m as u64 + 1)) as i64 - m) as i16
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAIL: {}", what);
        std::process::exit(1);
    }
}

#[derive(Clone, Copy)]
struct P {
    w: u32,
    h: u32,
    layers: u16,
    channels: u16,
    quality: u16,
    chroma: u8,
    block: u8,
    filter: Filter,
    encoder: Encoder,
}

const BASE: P = P {
    w: 16,
    h: 16,
    layers: 1,
    channels: 1,
    quality: 1024,
    chroma: 1,
    block: 7,
    filter: Filter::Linear,
    encoder: Encoder::Contextual,
};

fn header(p: P) -> Header {
    HeaderBuilder {
        width: p.w,
        height: p.h,
        layers: p.layers,
        channels: p.channels,
        quality: p.quality,
        chroma_scale: p.chroma,
        block_size: p.block,
        filter: p.filter,
        encoder: p.encoder,
        intent: Intent::Generic,
        metadata_size: 0,
    }
    .build()
    .unwrap()
}

fn compressed(image: &[u8], p: P, prog: &ColorTransformProgram) -> Vec<u8> {
    let hd = header(p);
    let mut buf = vec![0u8; 4096 + image.len() * 24];
    let n = compress_simple(image, &hd, prog, &mut buf).unwrap();
    buf.truncate(n);
    buf
}

/// decode the header and the image at full resolution
fn decompressed(mut data: &[u8]) -> Vec<u8> {
    let hd = Header::decode(&mut data).unwrap();
    let mut out = vec![0u8; hd.get_decompress_buffer_size(0)];
    decompress_simple(data, &hd, 0, false, &mut out).unwrap();
    out
}

fn rows(data: &mut [i16], w: usize) -> Vec<&mut [i16]> {
    data.chunks_mut(w).collect()
}
