ENC = "src/encode/mod.rs"
CMP = "src/compress/mod.rs"
COL = "src/color_transform/mod.rs"
HDR = "src/header/mod.rs"
BLD = "src/header/builder.rs"
IMG = "src/processing/image.rs"
VAR = "src/processing/variable_chunks_iterator.rs"
BIT = "src/bits/mod.rs"
LIB = "src/lib.rs"
COMPILE_FAIL = '''if cargo build --release --offline --quiet 2> "$work/log"; then
    echo "FAIL: the program compiles"
    exit 1
fi
grep -q "%s" "$work/log" || { cat "$work/log"; exit 3; }
exit 0'''
SEEDS = [
 dict(id="C02-flush-offset", property="C02", edits=[(BIT, "        self.cache_filled = false;\n        self.index_bits = 0;\n    }\n}", "        self.cache_filled = false;\n    }\n}")],
  needs="reading on from the same reader after it was flushed in the middle of a word",
  breaks="after flush_read_word the next word is read from the old bit position",
  demo=r'''
fn main() {
    for lead in 1..32u32 {
        let mut buf = vec![];
        {
            let mut s = BitsIOWriter::new(&mut buf);
            s.put_bits(1, lead).unwrap();
            s.flush_write_word().unwrap();
            s.put_bits(0xa5, 8).unwrap();
            s.flush_write_word().unwrap();
        }
        let mut b = &buf[..];
        let mut s = BitsIOReader::new(&mut b);
        check(s.get_bits(lead).unwrap() == 1, "lead");
        s.flush_read_word();
        check(s.get_bits(8).ok() == Some(0xa5), "bits after the flush");
    }
}
'''),
 dict(id="C01-escape-step", property="C01", edits=[(ENC, "let new_pot = if pot < 20 { pot + 4 } else { 24 };", "let new_pot = if pot < 24 { pot + 4 } else { 24 };")],
  needs="a start parameter that is no multiple of 4 and a magnitude that climbs past parameter 21",
  breaks="the encoder escapes to parameter 25..27 where the decoder stays at 24",
  demo=r'''
fn main() {
    for pot in 0..5u32 {
        for sh in 0..32u32 {
            for d in 0..3u32 {
                let x = (1u32 << sh).wrapping_mul(d + 1).wrapping_sub(d);
                let mut buf = vec![];
                {
                    let mut s = BitsIOWriter::new(&mut buf);
                    gfwx::encode::unsigned_code(x, &mut s, pot).unwrap();
                    s.put_bits(0x2a, 7).unwrap();
                    s.flush_write_word().unwrap();
                }
                let mut b = &buf[..];
                let mut s = BitsIOReader::new(&mut b);
                check(gfwx::encode::unsigned_decode(&mut s, pot).ok() == Some(x), "value");
                check(s.get_bits(7).ok() == Some(0x2a), "position");
            }
        }
    }
}
'''),
 dict(id="C03-run-limit", property="C03", edits=[(ENC, '''            if run_coder != 0 && s == 0 {
                run += 1;
                continue;
            }
''', '''            if run_coder != 0 && s == 0 && run < 0xffff {
                run += 1;
                continue;
            }
''')],
  needs="a block with more than 65535 zero coefficients in a row",
  breaks="the encoder ends a long zero run with an explicit zero, which the decoder takes for -1",
  demo=r'''
fn main() {
    for &enc in &[Encoder::Turbo, Encoder::Fast, Encoder::Contextual] {
        let (w, h) = (400usize, 400usize);
        let mut orig = vec![0i16; w * h];
        for i in 0..20 {
            orig[2 * i + 1] = 1;
        }
        orig[w * h - 1] = 5;
        let mut a = orig.clone();
        let mut buf = vec![];
        for chunk in Image::from_slice(&mut a, (w, h), 1).into_chunks_mut(1024, 1) {
            let mut s = BitsIOWriter::new(&mut buf);
            gfwx::encode::encode(&chunk, &mut s, enc, 0, true, false).unwrap();
            s.flush_write_word().unwrap();
        }
        let mut b = vec![0i16; w * h];
        let mut data = &buf[..];
        for chunk in Image::from_slice(&mut b, (w, h), 1).into_chunks_mut(1024, 1) {
            let mut s = BitsIOReader::new(&mut data);
            check(gfwx::encode::decode(chunk, &mut s, enc, 0, true, false).is_ok(), "decoding fails");
        }
        check(b == orig, "coefficients differ");
    }
}
'''),
 dict(id="C04-next-block", property="C04", edits=[(ENC, "            if x + skip * 4 < x_range.1 - x_range.0 {", "            if x + skip * 4 <= x_range.1 - x_range.0 {")],
  needs="a block with another block to its right and a sample four steps left of the border",
  breaks="the second neighbour to the right is read from the next block, where another thread writes",
  demo=r'''
fn main() {
    let mut r = Rng(11);
    for h in 2..14usize {
        let w = 16usize;
        let mut a: Vec<i16> = (0..w * h).map(|_| r.i16(300)).collect();
        let mut b = a.clone();
        for y in 0..h {
            for x in 8..w {
                if (x | y) & 1 == 1 {
                    b[y * w + x] = r.i16(300);
                }
            }
        }
        let ctx = |d: &mut Vec<i16>| {
            let mut out = vec![];
            for c in Image::from_slice(d, (w, h), 1).into_chunks_mut(8, 1) {
                if c.x_range.0 != 0 {
                    continue;
                }
                let (sx, sy) = ((c.x_range.1 - c.x_range.0) as i32, (c.y_range.1 - c.y_range.0) as i32);
                for y in 0..sy {
                    for x in 0..sx {
                        if (x | y) & 1 == 1 {
                            out.push(unsafe { gfwx::encode::get_context(&c, x, y) });
                        }
                    }
                }
            }
            out
        };
        check(ctx(&mut a) == ctx(&mut b), "context depends on another block");
    }
}
'''),
 dict(id="C07-chroma-floor", property="C07", edits=[(HDR, '''        1.max(
            (i32::from(self.quality) + i32::from(self.chroma_scale) / 2)
                / i32::from(self.chroma_scale),
        )''', '''        (i32::from(self.quality) + i32::from(self.chroma_scale) / 2) / i32::from(self.chroma_scale)''')],
  needs="a quality less than half the chroma scale",
  breaks="chroma quality becomes 0: every level of a chroma channel is quantized with quality 1 instead of doubling from 1",
  demo=r'''
fn main() {
    for q in 1..40u16 {
        for s in 1..=255u8 {
            let hd = header(P { quality: q, chroma: s, ..BASE });
            let want = std::cmp::max(1, (q as i32 + s as i32 / 2) / s as i32);
            check(hd.get_chroma_quality() == want, "chroma quality");
        }
    }
}
'''),
 dict(id="C09-zero-factor", property="C09", edits=[(COL, '''                channel_transform_builder.add_channel_factor(src_channel as usize, factor as isize);''', '''                if factor != 0 {
                    channel_transform_builder
                        .add_channel_factor(src_channel as usize, factor as isize);
                }''')],
  needs="a program with a factor of zero",
  breaks="factors of zero are lost: the decoded program differs from the encoded one",
  demo=r'''
fn main() {
    for f in -3..4isize {
        let mut p = ColorTransformProgram::new();
        p.add_channel_transform(ChannelTransformBuilder::with_dest_channel(1).add_channel_factor(0, f).add_channel_factor(2, -f).set_denominator(2).build());
        let mut buf = vec![];
        let c = p.encode(3, &mut buf).unwrap();
        let mut d = vec![false; 3];
        let mut b = &buf[..];
        let q = ColorTransformProgram::decode(&mut b, &mut d).unwrap();
        check(c == d, "flags");
        check(p == q, "program");
    }
}
'''),
 dict(id="C10-chroma-mask", property="C10", edits=[(HDR, "let chroma_scale = (((tmp >> 5) & 0xff) as u8)", "let chroma_scale = (((tmp >> 5) & 0x7f) as u8)")],
  needs="a chroma scale above 128",
  breaks="the top bit of the chroma scale is lost on decoding",
  demo=r'''
fn main() {
    for s in 1..=255u8 {
        for &q in &[1u16, 511, 512, 1024] {
            let hd = header(P { chroma: s, quality: q, block: 2 + s % 29, ..BASE });
            let mut b = vec![];
            hd.encode(&mut b).unwrap();
            check(b.len() == 32, "length");
            check(Header::decode(&mut &b[..]).ok() == Some(hd), "header");
        }
    }
}
'''),
 dict(id="C11-metadata-wraps", property="C11", edits=[(HDR, '''            .checked_mul(4)
            .ok_or_else(|| HeaderErr::WrongValue(String::from("Wrong metadata_size value")))?;''', '''            .wrapping_mul(4);''')],
  needs="a header whose metadata word count is 2^30 or more",
  breaks="a metadata size that is not representable is accepted with a wrapped value",
  demo=r'''
fn main() {
    let hd = header(BASE);
    let mut b = vec![];
    hd.encode(&mut b).unwrap();
    for &m in &[0u32, 1, 0x3fff_ffff, 0x4000_0000, 0x4000_0001, 0x8000_0000, 0xffff_ffff] {
        let mut c = b.clone();
        c[28..32].copy_from_slice(&m.to_le_bytes());
        let got = Header::decode(&mut &c[..]);
        match got {
            Ok(h) => check(h.metadata_size as u64 == m as u64 * 4, "metadata size"),
            Err(_) => check(m >= 0x4000_0000, "rejected"),
        }
    }
}
'''),
 dict(id="C13-safe-unchecked", property="C13", edits=[(IMG, "    pub unsafe fn get_unchecked(&self, y: usize, x: usize) -> &T {", "    pub fn get_unchecked(&self, y: usize, x: usize) -> &T {"),
   (IMG, "        &*self.data_ptr.add(index)", "        unsafe { &*self.data_ptr.add(index) }")],
  needs="a safe caller that passes coordinates outside the image",
  breaks="safe code can read outside the caller's buffer",
  run=COMPILE_FAIL % "E0133",
  demo=r'''
fn main() {
    let mut v = vec![0u8; 16];
    let c = Image::from_slice(&mut v, (4, 4), 1).into_chunks_mut(2, 1).next().unwrap();
    let x = c.get_unchecked(1000, 1000);
    println!("{}", x);
}
'''),
 dict(id="C14-collect-order", property="C14", edits=[(CMP, '''        for result in block_encode_results {
            match result {
                Ok((i, v)) => sorted_block_encode_results[i] = v,''', '''        for (i, result) in block_encode_results.into_iter().enumerate() {
            match result {
                Ok((_, v)) => sorted_block_encode_results[i] = v,''')],
  needs="blocks that finish in another order than they start",
  breaks="block sizes are stored in the order in which threads finish",
  demo=r'''
fn main() {
    let p = P { w: 1100, h: 900, channels: 3, block: 3, encoder: Encoder::Contextual, ..BASE };
    let mut r = Rng(5);
    let image: Vec<u8> = (0..1100 * 900 * 3).map(|i| if (i / 3000) % 3 == 0 { r.next() as u8 } else { 7 }).collect();
    let first = compressed(&image, p, &ColorTransformProgram::new());
    for _ in 0..4 {
        check(compressed(&image, p, &ColorTransformProgram::new()) == first, "output varies");
        check(decompressed(&first) == image, "image");
    }
}
'''),
 dict(id="C16-no-progress", property="C16", edits=[(CMP, "let mut next_point_of_interest = buffer.len() + 1024;", "let mut next_point_of_interest = buffer.len().max(1024);")],
  needs="a prefix that ends inside a size table of more than 1024 bytes at the first level",
  breaks="the next useful length equals what was given: a caller that follows it never gets further",
  demo=r'''
fn main() {
    let p = P { w: 2, h: 2, channels: 600, ..BASE };
    let hd = header(p);
    let mut r = Rng(5);
    let mut aux: Vec<i16> = (0..2400).map(|_| r.i16(90)).collect();
    let chroma = vec![false; 600];
    let mut buf = vec![0u8; 1 << 18];
    let n = compress_aux_data(&mut aux, &hd, &chroma, &mut buf).unwrap();
    for len in (0..2400usize).step_by(100) {
        let mut out = vec![0i16; 2400];
        let next = decompress_aux_data(&buf[..len.min(n)], &hd, &chroma, 0, true, &mut out).unwrap();
        check(next > len, "next point of interest");
    }
}
'''),
 dict(id="C17-tolerated-eof", property="C17", edits=[(CMP, '''                    decode(
                        aux_data_chunk,
                        &mut input_block_reader,
                        header.encoder,
                        quality,
                        has_dc && is_first_block_in_channel,
                        is_chroma[channel],
                    )?;''', '''                    let result = decode(
                        aux_data_chunk,
                        &mut input_block_reader,
                        header.encoder,
                        quality,
                        has_dc && is_first_block_in_channel,
                        is_chroma[channel],
                    );
                    if block_index + 1 < block_count {
                        result?;
                    }''')],
  needs="damage in the last block of a level",
  breaks="an underflow in the last block is dropped and a wrong image is reported as complete",
  demo=r'''
fn main() {
    let p = P { w: 2, h: 2, channels: 2, ..BASE };
    let hd = header(p);
    // one level; both blocks have one word
    for bad in 0..2usize {
        let mut aux: Vec<i16> = vec![0; 8];
        let mut data = vec![];
        for level in 0..1 {
            for c in 0..2 {
                let _ = (level, c);
                data.extend_from_slice(&1u32.to_le_bytes());
            }
            for c in 0..2 {
                // zeros: an endless escape code
                data.extend_from_slice(&(if c == bad { 0u32 } else { 0xffff_ffff }).to_le_bytes());
            }
        }
        let got = decompress_aux_data(&data, &hd, &[false, false], 0, false, &mut aux);
        check(got.is_err(), "error lost");
    }
}
'''),
 dict(id="C18-channel-shift", property="C18", edits=[(LIB, "            header.get_downsampled_channel_size(downsampling),", "            header.get_channel_size() >> (2 * downsampling),")],
  needs="a downsampled image of odd dimensions with more than one channel",
  breaks="the reduced image is laid out with a channel size that was rounded down",
  demo=r'''
fn main() {
    let p = P { w: 13, h: 11, channels: 3, ..BASE };
    let mut image = vec![];
    for _ in 0..13 * 11 {
        image.extend_from_slice(&[10u8, 100, 200]);
    }
    let data = compressed(&image, p, &ColorTransformProgram::new());
    for d in 0..4usize {
        let mut b = &data[..];
        let hd = Header::decode(&mut b).unwrap();
        let mut out = vec![0u8; hd.get_decompress_buffer_size(d)];
        decompress_simple(b, &hd, d, false, &mut out).unwrap();
        check(out.chunks(3).all(|p| p == [10, 100, 200]), "reduced image");
    }
}
'''),
 dict(id="C19-sorted-skip", property="C19", edits=[(COL, "        if skip_channels.contains(&c) {", "        if skip_channels.get(skipped) == Some(&c) {")],
  needs="a list of channels to skip that is not in ascending order",
  breaks="channels that should be skipped are converted",
  demo=r'''
fn main() {
    let image: Vec<u8> = (0..40).collect();
    for a in 0..4usize {
        for b in 0..4usize {
            let skip = [a, b];
            let mut out = vec![0i16; 40];
            interleaved_to_planar(&image, 4, 8, &mut out, &skip);
            let mut want = vec![];
            for c in 0..4 {
                if c != a && c != b {
                    want.extend((0..10).map(|i| image[i * 4 + c] as i16 * 8));
                }
            }
            check(out[..want.len()] == want[..] && out[want.len()..].iter().all(|v| *v == 0), "planar");
        }
    }
}
'''),
 dict(id="C20-empty-chunk", property="C20", edits=[(VAR, "        if self.slice.is_empty() {\n            None", "        if self.slice.is_empty() || size == 0 {\n            None")],
  needs="an empty chunk that is not the last one",
  breaks="iteration ends at the first empty chunk: the chunks behind it are never handed out",
  demo=r'''
fn main() {
    use gfwx::processing::VariableChunksIterator;
    let data = [1u8, 2, 3, 4, 5, 6];
    for sizes in &[[0usize, 2, 3, 1], [2, 0, 0, 4], [1, 2, 3, 0], [6, 0, 0, 0]] {
        let got: Vec<u8> = VariableChunksIterator::new(&data, sizes).flat_map(|c| c.to_vec()).collect();
        check(got == data, "chunks");
    }
}
'''),
 dict(id="C22-layers-left-out", property="C22", edits=[(COL, '''        let channels = header.channels as usize;
        for c in 0..channels * header.layers as usize {
            let layer = get_layer(c, channels, channel_size);
            for i in 0..channel_size {
                image[layer + i * channels] =
                    T::from(cut_with_u8(aux[c * channel_size + i] / boost)).unwrap();''', '''        let channels = header.channels as usize;
        for c in 0..(aux.len() / channel_size).min(4) {
            let layer = get_layer(c, channels, channel_size);
            for i in 0..channel_size {
                image[layer + i * channels] =
                    T::from(cut_with_u8(aux[c * channel_size + i] / boost)).unwrap();''')],
  needs="more than four planes (channels times layers)",
  breaks="planes from the fifth on are not written to the image",
  demo=r'''
fn main() {
    let mut r = Rng(9);
    for &(l, c) in &[(1u16, 1u16), (1, 4), (2, 3), (3, 1), (5, 2), (1, 6)] {
        let image = r.bytes(9 * 7 * l as usize * c as usize);
        let p = P { w: 9, h: 7, layers: l, channels: c, ..BASE };
        check(decompressed(&compressed(&image, p, &ColorTransformProgram::new())) == image, "image");
    }
}
'''),
 dict(id="C23-unlift-reduced", property="C23", edits=[(CMP, "    if !test {\n        unlift_and_dequantize", "    if !test || downsampling > 0 {\n        unlift_and_dequantize")],
  needs="probing with a downsampling level above 0",
  breaks="a probe changes the caller's coefficient buffer",
  demo=r'''
fn main() {
    let p = P { w: 16, h: 12, ..BASE };
    let hd = header(p);
    let mut r = Rng(5);
    let mut a: Vec<i16> = (0..16 * 12).map(|_| r.i16(900)).collect();
    let mut buf = vec![0u8; 1 << 16];
    let n = compress_aux_data(&mut a, &hd, &[false], &mut buf).unwrap();
    for d in 0..3usize {
        let mut out: Vec<i16> = (0..16 * 12).map(|_| r.i16(900)).collect();
        let before = out.clone();
        decompress_aux_data(&buf[..n], &hd, &[false], d, true, &mut out).unwrap();
        check(out == before, "probe writes");
    }
}
'''),
]
