use std::io;

use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};

pub trait BitsWriter {
    fn put_bits(&mut self, x: u32, bits: u32) -> io::Result<()>;
    fn flush_write_word(&mut self) -> io::Result<()>;
}

pub trait BitsReader {
    fn get_bits(&mut self, bits: u32) -> io::Result<u32>;
    fn get_zeros(&mut self, max_zeros: u32) -> io::Result<u32>;
    fn flush_read_word(&mut self);
}

/// `write_cache` holds the last `index_bits` (0..=31) bits not yet written, in its low end
pub struct BitsIOWriter<'a, W: WriteBytesExt> {
    write_stream: &'a mut W,
    write_cache: u32,
    index_bits: u32,
}

impl<'a, W: WriteBytesExt> BitsIOWriter<'a, W> {
    pub fn new(stream: &'a mut W) -> Self {
        BitsIOWriter { write_stream: stream, write_cache: 0, index_bits: 0 }
    }
}

impl<W: WriteBytesExt> BitsWriter for BitsIOWriter<'_, W> {
    fn put_bits(&mut self, x: u32, bits: u32) -> io::Result<()> {
        let pending = self.index_bits + bits;
        if pending < 32 {
            self.write_cache = (self.write_cache << bits) | x;
            self.index_bits = pending;
            return Ok(());
        }
        // `left` low bits of x go to the next word
        let left = pending - 32;
        let word = (self.write_cache << (bits - left)) | (x >> left);
        self.write_stream.write_u32::<LittleEndian>(word)?;
        self.write_cache = x;
        self.index_bits = left;
        Ok(())
    }

    fn flush_write_word(&mut self) -> io::Result<()> {
        let padding = (32 - self.index_bits) % 32;
        self.put_bits(0, padding)
    }
}

/// `index_bits` bits of `read_cache` are consumed; without `cache_filled` a word must be fetched
#[derive(Debug)]
pub struct BitsIOReader<'a, R: ReadBytesExt> {
    read_stream: &'a mut R,
    read_cache: u32,
    index_bits: u32,
    cache_filled: bool,
}

impl<'a, R: ReadBytesExt> BitsIOReader<'a, R> {
    pub fn new(stream: &'a mut R) -> Self {
        BitsIOReader { read_stream: stream, read_cache: 0xffff_ffff, index_bits: 0, cache_filled: false }
    }

    fn next_u32(&mut self) -> io::Result<u32> {
        let word = self.read_stream.read_u32::<LittleEndian>();
        self.cache_filled = word.is_ok();
        word
    }
}

impl<'a, R: ReadBytesExt> BitsReader for BitsIOReader<'a, R> {
    fn get_bits(&mut self, bits: u32) -> io::Result<u32> {
        let start = self.index_bits;
        let end = start + bits;
        if !self.cache_filled {
            self.read_cache = self.next_u32()?;
        }
        let mut window = self.read_cache << start;
        if end < 32 {
            self.index_bits = end;
        } else if end == 32 {
            self.cache_filled = false;
            self.index_bits = 0;
        } else {
            self.read_cache = self.next_u32()?;
            window |= self.read_cache >> (32 - start);
            self.index_bits = end - 32;
        }
        Ok(window >> (32 - bits))
    }

    fn get_zeros(&mut self, max_zeros: u32) -> io::Result<u32> {
        let mut at = self.index_bits;
        if !self.cache_filled {
            self.read_cache = self.next_u32()?;
        }
        let mut word = self.read_cache;
        let mut zeros = 0;
        loop {
            let one = (word << at) & 0x8000_0000 != 0;
            if !one {
                zeros += 1;
            }
            let last = at == 31;
            if one || zeros == max_zeros {
                self.index_bits = if last { 0 } else { at + 1 };
                if last {
                    self.cache_filled = false;
                }
                return Ok(zeros);
            }
            if last {
                self.read_cache = self.next_u32()?;
                word = self.read_cache;
                at = 0;
            } else {
                at += 1;
            }
        }
    }

    fn flush_read_word(&mut self) {
        self.index_bits = 0;
        self.cache_filled = false;
    }
}
