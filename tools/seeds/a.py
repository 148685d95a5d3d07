ENC = "src/encode/mod.rs"
CMP = "src/compress/mod.rs"
COL = "src/color_transform/mod.rs"
HDR = "src/header/mod.rs"
BLD = "src/header/builder.rs"
IMG = "src/processing/image.rs"
BIT = "src/bits/mod.rs"
LIN = "src/lifting/linear.rs"
CUB = "src/lifting/cubic.rs"
LFT = "src/lifting/mod.rs"
QNT = "src/quant/mod.rs"
SEEDS = [
 dict(id="C01-escape-cap", property="C01", edits=[(ENC, "let p = pot.min(24);", "let p = pot.min(20);")],
  needs="a magnitude large enough to climb past Rice parameter 20 (about 13 million)",
  breaks="the decoder caps the Rice parameter at 20 while the encoder goes on to 24: large magnitudes decode to something else",
  demo=r'''
fn main() {
    let mut r = Rng(7);
    for k in 0..4000u64 {
        let x = (r.next() as u32) >> (k % 32) as u32;
        let pot = (k % 5) as u32;
        let mut buf = vec![];
        {
            let mut s = BitsIOWriter::new(&mut buf);
            gfwx::encode::unsigned_code(x, &mut s, pot).unwrap();
            s.put_bits(0x2a, 7).unwrap();
            s.flush_write_word().unwrap();
        }
        let mut b = &buf[..];
        let mut s = BitsIOReader::new(&mut b);
        check(gfwx::encode::unsigned_decode(&mut s, pot).ok() == Some(x), "value");
        check(s.get_bits(7).ok() == Some(0x2a), "position");
    }
}
'''),
 dict(id="C02-zero-run-at-word-end", property="C02", edits=[(BIT, "if lsb_set || x == max_zeros {\n                    self.index_bits = 0;", "if lsb_set || x > max_zeros {\n                    self.index_bits = 0;")],
  needs="a zero run that reaches the requested maximum exactly on the last bit of a word",
  breaks="get_zeros counts past its maximum into the next word",
  demo=r'''
fn main() {
    for lead in 0..32u32 {
        for max in 1..14u32 {
            let mut buf = vec![];
            {
                let mut s = BitsIOWriter::new(&mut buf);
                if lead > 0 {
                    s.put_bits(1, lead).unwrap();
                }
                s.put_bits(0, max).unwrap();
                s.put_bits(0x35, 7).unwrap();
                s.flush_write_word().unwrap();
            }
            let mut b = &buf[..];
            let mut s = BitsIOReader::new(&mut b);
            if lead > 0 {
                check(s.get_bits(lead).unwrap() == 1, "lead");
            }
            check(s.get_zeros(max).unwrap() == max, "zero run");
            check(s.get_bits(7).unwrap() == 0x35, "bits after the run");
        }
    }
}
'''),
 dict(id="C03-fast-moment-clamp", property="C03", edits=[(ENC, '''                    if scheme == Encoder::Fast {
                        let t = s.abs() as u32;
                        context = (
                            ((context.0 * 15 + 7) >> 4) + t,
                            ((context.1 * 15 + 7) >> 4) + square(t.min(4096)),''', '''                    if scheme == Encoder::Fast {
                        let t = s.abs() as u32;
                        context = (
                            ((context.0 * 15 + 7) >> 4) + t,
                            ((context.1 * 15 + 7) >> 4) + square(t),''')],
  needs="the fast encoder and a coefficient of magnitude above 4096",
  breaks="the decoder's second moment is not clamped as the encoder's is: the adaptive state of the two sides diverges",
  demo=r'''
fn main() {
    let mut r = Rng(3);
    for round in 0..40 {
        let (w, h) = (24usize, 20usize);
        let mut a: Vec<i16> = (0..w * h).map(|_| if r.below(4) == 0 { r.i16(16000) } else { r.i16(40) }).collect();
        let orig = a.clone();
        let mut buf = vec![];
        for chunk in Image::from_slice(&mut a, (w, h), 1).into_chunks_mut(64, 1) {
            let mut s = BitsIOWriter::new(&mut buf);
            gfwx::encode::encode(&chunk, &mut s, Encoder::Fast, 1024, true, round % 2 == 0).unwrap();
            s.flush_write_word().unwrap();
        }
        // everything the block owns is cleared, what it does not own is known to the decoder
        let mut b: Vec<i16> = (0..w * h).map(|i| if (i / w) % 2 == 1 || i % w % 2 == 1 || i == 0 { 0 } else { orig[i] }).collect();
        let mut data = &buf[..];
        for chunk in Image::from_slice(&mut b, (w, h), 1).into_chunks_mut(64, 1) {
            let mut s = BitsIOReader::new(&mut data);
            check(gfwx::encode::decode(chunk, &mut s, Encoder::Fast, 1024, true, round % 2 == 0).is_ok(), "decoding fails");
        }
        check(b == orig, "coefficients differ");
    }
}
'''),
 dict(id="C04-sibling-bound", property="C04", edits=[(ENC, "if (y & skip) != 0 && (x | skip) < (x_range.1 - x_range.0) {", "if (y & skip) != 0 && (x | skip) < x_range.1 {")],
  needs="contextual encoder, more than one block column and a clipped last block of odd width",
  breaks="the upper sibling is read right of the block and of the image: another row's sample (or, on the last row, another channel's)",
  demo=r'''
fn main() {
    let mut r = Rng(11);
    for w in [5usize, 7, 9, 11, 13] {
        let h = 8usize;
        // the context of a sample must not depend on samples outside its block
        let mut a: Vec<i16> = (0..w * h).map(|_| r.i16(300)).collect();
        let mut b = a.clone();
        let x0 = (w / 4) * 4;
        for y in 0..h {
            for x in 0..x0 {
                b[y * w + x] = r.i16(300);
            }
        }
        let ctx = |d: &mut Vec<i16>| {
            let mut out = vec![];
            for c in Image::from_slice(d, (w, h), 1).into_chunks_mut(4, 1) {
                if c.x_range.0 != x0 {
                    continue;
                }
                let (sx, sy) = ((c.x_range.1 - c.x_range.0) as i32, (c.y_range.1 - c.y_range.0) as i32);
                for y in 0..sy {
                    for x in 0..sx {
                        if (x | y) & 1 == 1 && c.y_range.1 < h {
                            out.push(unsafe { gfwx::encode::get_context(&c, x, y) });
                        }
                    }
                }
            }
            out
        };
        check(ctx(&mut a) == ctx(&mut b), "context depends on another block");
    }
}
'''),
 dict(id="C05-single-row", property="C05", edits=[(LFT, '''    let hint_do_parallel = get_hint_do_parallel(&image, config_factor);

    let mut step = 1;
    while 2 * step < image.len()''', '''    let hint_do_parallel = get_hint_do_parallel(&image, config_factor);

    if image.len() < 2 {
        return;
    }

    let mut step = 1;
    while 2 * step < image.len()''')],
  needs="an image that is one row high",
  breaks="the inverse transform does nothing for single-row images although the forward transform does",
  demo=r'''
fn main() {
    let mut r = Rng(5);
    for &(w, h) in &[(1usize, 9usize), (9, 1), (17, 1), (4, 4), (5, 12), (33, 2)] {
        let orig: Vec<i16> = (0..w * h).map(|_| r.i16(30000)).collect();
        let mut a = orig.clone();
        gfwx::lifting::lift_linear(&mut rows(&mut a, w));
        gfwx::lifting::unlift_linear(&mut rows(&mut a, w));
        check(a == orig, "linear wavelet does not invert");
    }
}
'''),
 dict(id="C06-cubic-short-sum", property="C06", edits=[(CUB, '''    let num = -c0 + 9 * (c1 + c2) - c3;''', '''    let mid = i32::from((c1 + c2) as i16);
    let num = -c0 + 9 * mid - c3;''')],
  needs="two neighbours whose sum leaves the 16-bit range",
  breaks="the cubic prediction uses a wrapped sum of the two nearest neighbours",
  demo=r'''
fn round(n: i64, d: i64) -> i64 {
    if n < 0 { (n - d / 2) / d } else { (n + d / 2) / d }
}
fn main() {
    let mut r = Rng(9);
    for _ in 0..2000 {
        // one row of four samples at step 1: x[1] is predicted from (x0, x0, x2, x2), then x[2] updated
        let v: Vec<i16> = (0..4).map(|_| r.i16(32000)).collect();
        let mut a = v.clone();
        gfwx::lifting::lift_cubic(&mut [&mut a[..]]);
        let c = |a: i64, b: i64, c: i64, d: i64| round(-a + 9 * (b + c) - d, 16).max(b.min(c)).min(b.max(c));
        let (x0, x2) = (v[0] as i64, v[2] as i64);
        let want = (v[1] as i64 - c(x0, x0, x2, x2)) as i16;
        check(a[1] == want, "prediction");
    }
}
'''),
 dict(id="C07-downsampled-quality", property="C07", edits=[(CMP, "quality << downsampling,", "quality * (downsampling as i32 + 1),")],
  needs="lossy data decoded at downsampling level 2 or more",
  breaks="dequantization of a reduced image uses the wrong quality from level 2 on",
  demo=r'''
fn main() {
    let p = P { w: 64, h: 64, quality: 64, block: 7, encoder: Encoder::Fast, ..BASE };
    let hd = header(p);
    let mut r = Rng(21);
    let orig: Vec<i16> = (0..64 * 64).map(|i| (((i % 64) * 20 + (i / 64) * 9) as i16) + r.i16(60)).collect();
    let mut a = orig.clone();
    let mut buf = vec![0u8; 1 << 18];
    let n = compress_aux_data(&mut a, &hd, &[false], &mut buf).unwrap();
    let mut full = vec![0i16; 64 * 64];
    decompress_aux_data(&buf[..n], &hd, &[false], 0, false, &mut full).unwrap();
    // by hand: coefficients of the reduced image, scaled back with the quality of their level
    for d in 1..4usize {
        let s = 64 >> d;
        let mut red = vec![0i16; s * s];
        decompress_aux_data(&buf[..n], &hd, &[false], d, false, &mut red).unwrap();
        let mut co = vec![0i16; s * s];
        gfwx::compress::decompress_image_data(&mut co, &hd, &buf[..n], d, false, &[false]).unwrap();
        gfwx::quant::dequantize(&mut rows(&mut co, s), 64 << d, 0, 1024 * 8);
        gfwx::lifting::unlift_linear(&mut rows(&mut co, s));
        check(co == red, "reduced image");
    }
}
'''),
 dict(id="C08-accumulate-untransformed", property="C08", edits=[(COL, "                    aux[dest_base + i] = image[layer + i * channels_in_index].into() * boost;", "                    aux[dest_base + i] += image[layer + i * channels_in_index].into() * boost;")],
  needs="an output buffer that is not zero beforehand (a reused one)",
  breaks="untransformed channels are added to what the buffer held",
  demo=r'''
fn main() {
    let p = P { w: 6, h: 5, channels: 3, ..BASE };
    let hd = header(p);
    let mut r = Rng(2);
    let img = r.bytes(90);
    let prog = ColorTransformProgram::yuv444_to_yuv444();
    let none = ColorTransformProgram::new();
    for pr in [&none, &prog] {
        let mut aux = vec![0i16; 90];
        if std::ptr::eq(pr, &none) {
            aux.iter_mut().for_each(|x| *x = 77); // a buffer used before
        }
        pr.transform_and_to_planar(&img, &hd, &mut aux);
        let mut out = vec![0u8; 90];
        pr.detransform_and_to_interleaved(&mut aux, &hd, 30, &mut out);
        check(out == img, "colour transform does not invert");
    }
}
'''),
 dict(id="C09-sticky-chroma", property="C09", edits=[(COL, "is_chroma[channel_transform.dest_channel] = channel_transform.is_chroma;", "is_chroma[channel_transform.dest_channel] |= channel_transform.is_chroma;")],
  needs="a program with two transforms of one channel, of which only the earlier is marked chroma",
  breaks="the encoder reports (and quantizes by) another chroma flag than the decoder reads back",
  demo=r'''
fn main() {
    let mut prog = ColorTransformProgram::new();
    prog.add_channel_transform(ChannelTransformBuilder::with_dest_channel(1).add_channel_factor(0, 1).set_chroma().build());
    prog.add_channel_transform(ChannelTransformBuilder::with_dest_channel(1).add_channel_factor(2, -3).set_denominator(4).build());
    let mut buf = vec![];
    let flags = prog.encode(3, &mut buf).unwrap();
    let mut back = vec![false; 3];
    let prog2 = ColorTransformProgram::decode(&mut &buf[..], &mut back).unwrap();
    check(prog == prog2, "program");
    check(flags == back, "chroma flags");
}
'''),
 dict(id="C10-version-lost", property="C10", edits=[(HDR, "        header.version = version;\n", "        let _ = version;\n")],
  needs="a header whose version is not the builder's default",
  breaks="the version read from the stream is dropped",
  demo=r'''
fn main() {
    for v in [0u32, 1, 2, 0x01020304, u32::MAX] {
        let mut h = header(BASE);
        h.version = v;
        let mut b = vec![];
        h.encode(&mut b).unwrap();
        check(b.len() == 31, "length");
        check(Header::decode(&mut &b[..]).unwrap() == h, "header");
    }
}
'''),
 dict(id="C11-size-wraps", property="C11", edits=[(BLD, '''        let image_size = layer_size
            .checked_mul(self.channels as usize)
            .ok_or_else(|| HeaderErr::WrongValue(String::from("Image size is too large")))?;''', '''        let image_size = layer_size.wrapping_mul(self.channels as usize);''')],
  needs="dimensions whose product overflows only when multiplied by the number of channels",
  breaks="a header whose image size overflows is accepted with a small size",
  demo=r'''
fn main() {
    let mut r = Rng(17);
    for _ in 0..20000 {
        let (w, h) = (1 + (r.next() as u32 >> r.below(30)) % ((1 << 30) - 1), 1 + (r.next() as u32) % ((1 << 30) - 1));
        let (l, c) = ((r.next() as u16 >> r.below(15)).max(1), (r.next() as u16 >> r.below(15)).max(1));
        let size = w as u128 * h as u128 * l as u128 * c as u128;
        let b = HeaderBuilder { width: w, height: h, layers: l, channels: c, quality: 512, chroma_scale: 8, block_size: 7,
            filter: Filter::Cubic, encoder: Encoder::Fast, intent: Intent::RGB, metadata_size: 0 }.build();
        check(b.is_ok() == (size <= usize::MAX as u128), "accepted exactly when the size fits");
        if let Ok(h) = b {
            check(h.get_image_size() as u128 == size, "size");
        }
    }
}
'''),
 dict(id="C12-source-channel", property="C12", edits=[(COL, "if src_channel as usize >= is_chroma.len() {", "if src_channel as usize > is_chroma.len() {")],
  needs="a colour program whose factor names exactly the channel one past the last",
  breaks="the program is accepted and applying it indexes out of range",
  demo=r'''
fn main() {
    let hd = header(P { w: 4, h: 4, channels: 2, encoder: Encoder::Fast, ..BASE });
    for src in 0..5usize {
        let mut prog = ColorTransformProgram::new();
        prog.add_channel_transform(ChannelTransformBuilder::with_dest_channel(0).add_channel_factor(src, 1).build());
        let mut data = vec![];
        prog.encode(2, &mut data).unwrap();
        let mut buf = vec![0u8; 4096];
        let n = compress_aux_data(&mut [1i16; 32], &hd, &[false; 2], &mut buf).unwrap();
        data.extend_from_slice(&buf[..n]);
        let mut out = vec![0u8; 32];
        let r = std::panic::catch_unwind(move || decompress_simple(&data, &hd2(), 0, false, &mut out).is_ok());
        check(r.is_ok(), "panic");
        check(r.unwrap() == (src < 2), "accepted");
    }
}
fn hd2() -> Header {
    header(P { w: 4, h: 4, channels: 2, encoder: Encoder::Fast, ..BASE })
}
'''),
 dict(id="C13-cubic-edge-read", property="C13", edits=[(CUB, "let mut c2 = if c2_step_multiplier * step < column.len() {", "let mut c2 = if c2_step_multiplier * step <= column.len() {")],
  needs="a row whose length is exactly two or three steps of some level",
  breaks="an unchecked read one past the end of the row",
  demo=r'''
fn main() {
    // the result must not depend on what lies behind a row
    let mut r = Rng(31);
    for w in 1..26usize {
        for h in [1usize, 2, 5] {
            let img: Vec<i16> = (0..w * h).map(|_| r.i16(2000)).collect();
            let mut out = vec![];
            for fill in [0i16, 12345] {
                let mut mem = vec![fill; (w + 4) * h + 4];
                {
                    let mut v: Vec<&mut [i16]> = mem.chunks_mut(w + 4).take(h).map(|c| &mut c[..w]).collect();
                    for y in 0..h {
                        v[y].copy_from_slice(&img[y * w..(y + 1) * w]);
                    }
                    gfwx::lifting::lift_cubic(&mut v);
                }
                out.push(mem.chunks(w + 4).take(h).map(|c| c[..w].to_vec()).collect::<Vec<_>>());
            }
            check(out[0] == out[1], "the transform read past a row");
        }
    }
}
'''),
 dict(id="C14-unbounded-send", property="C14", edits=[(IMG, "unsafe impl<T: Send> Send for ImageChunkMut<'_, T> {}", "unsafe impl<T> Send for ImageChunkMut<'_, T> {}")],
  needs="a caller that moves chunks of a type that is not Send to another thread",
  breaks="chunks of thread-bound data can be sent to other threads: shared mutable state without synchronisation",
  demo=r'''
use std::cell::Cell;
use std::rc::Rc;
fn sent<T: Send>(_: T) {}
fn main() {
    let mut v = vec![Rc::new(Cell::new(1i16)); 4];
    for c in Image::from_slice(&mut v, (2, 2), 1).into_chunks_mut(1, 1) {
        sent(c);
    }
}
''', run=r'''if cargo build --release --offline > "$work/log" 2>&1; then echo "FAIL: chunks of Rc cross threads"; exit 1; fi
grep -q 'E0277' "$work/log" || { cat "$work/log"; exit 3; }
exit 0'''),
 dict(id="C15-slot-rounding", property="C15", edits=[(CMP, "let temp_block_size = blocks_buffer_free_space / block_count;", "let temp_block_size = (blocks_buffer_free_space + block_count - 1) / block_count;")],
  needs="an output buffer so tight that rounding up leaves fewer slots than blocks",
  breaks="blocks without a slot are silently not written: success is reported for an incomplete stream",
  demo=r'''
fn main() {
    let mut r = Rng(4);
    for &(w, h, c) in &[(9u32, 7u32, 4u16), (33, 17, 2), (40, 3, 5)] {
        let p = P { w, h, channels: c, block: 2, encoder: Encoder::Turbo, ..BASE };
        let hd = header(p);
        let n = (w * h) as usize * c as usize;
        let orig: Vec<i16> = (0..n).map(|_| if r.below(9) == 0 { r.i16(2) } else { 0 }).collect();
        let fl = vec![false; c as usize];
        let mut full = vec![0u8; 1 << 16];
        let k = compress_aux_data(&mut orig.clone(), &hd, &fl, &mut full).unwrap();
        for size in 0..k * 4 {
            let mut buf = vec![0xa5u8; size];
            if let Ok(m) = compress_aux_data(&mut orig.clone(), &hd, &fl, &mut buf) {
                check(m == k && buf[..m] == full[..k], "incomplete stream reported as success");
            }
        }
    }
}
'''),
 dict(id="C16-last-level-estimate", property="C16", edits=[(CMP, "+ if step >> downsampling > 1 {", "+ if step > 1 {")],
  needs="a prefix that ends inside the last level wanted, at downsampling 1 or more",
  breaks="the next useful length asks for bytes of a level that is not needed",
  demo=r'''
fn main() {
    let p = P { w: 40, h: 24, block: 2, encoder: Encoder::Fast, ..BASE };
    let hd = header(p);
    let mut r = Rng(6);
    let mut a: Vec<i16> = (0..960).map(|_| r.i16(200)).collect();
    let mut buf = vec![0u8; 1 << 16];
    let n = compress_aux_data(&mut a, &hd, &[false], &mut buf).unwrap();
    for d in 0..4usize {
        let size = hd.get_downsampled_image_size(d);
        let at = |k: usize| decompress_aux_data(&buf[..k], &hd, &[false], d, false, &mut vec![0i16; size]);
        // shortest prefix that completes the level
        let need = (0..=n).find(|&k| matches!(at(k), Ok(0))).unwrap();
        for k in 0..need {
            if let Ok(x) = at(k) {
                if need - k < 6 {
                    check(x == need, "next useful length of the last level");
                }
            }
        }
    }
}
'''),
 dict(id="C17-flush-error", property="C17", edits=[(CMP, "output_block_writer.flush_write_word()?;", "output_block_writer.flush_write_word().ok();")],
  needs="an output buffer that runs out exactly when a block's last partial word is flushed",
  breaks="the write error is dropped and a truncated block is reported as success",
  demo=r'''
fn main() {
    let mut r = Rng(8);
    let p = P { w: 20, h: 13, channels: 2, block: 3, encoder: Encoder::Contextual, ..BASE };
    let hd = header(p);
    let orig: Vec<i16> = (0..520).map(|_| r.i16(90)).collect();
    let mut full = vec![0u8; 1 << 16];
    let k = compress_aux_data(&mut orig.clone(), &hd, &[false; 2], &mut full).unwrap();
    for size in 0..k * 3 {
        let mut buf = vec![0u8; size];
        if let Ok(m) = compress_aux_data(&mut orig.clone(), &hd, &[false; 2], &mut buf) {
            check(m == k && buf[..m] == full[..k], "truncated block reported as success");
        }
    }
}
'''),
 dict(id="C18-height-rounding", property="C18", edits=[(HDR, "(self.height as usize + (1 << downsampling) - 1) >> downsampling", "(self.height as usize + downsampling) >> downsampling")],
  needs="downsampling 2 or more and a height that is one more than a multiple",
  breaks="the reduced image loses its last row",
  demo=r'''
fn main() {
    for h in 1..70u32 {
        let hd = header(P { w: 3, h, ..BASE });
        for d in 0..8usize {
            let want = (h as usize + (1 << d) - 1) / (1 << d);
            check(hd.get_downsampled_height(d) == want, "reduced height");
        }
    }
}
'''),
 dict(id="C19-clamp-first", property="C19", edits=[(COL, "*dest = T::from(cut_with_u8(*src / boost)).unwrap();", "*dest = T::from(cut_with_u8(*src) / boost).unwrap();")],
  needs="planar output of lossy data",
  breaks="samples are clamped before they are divided by the boost",
  demo=r'''
fn main() {
    for q in [1024u16, 700] {
        let hd = header(P { w: 16, h: 16, quality: q, ..BASE });
        let img: Vec<u8> = (0..=255).collect();
        let prog = ColorTransformProgram::new();
        let mut aux = vec![0i16; 256];
        prog.transform(&img, &hd, &mut aux);
        let mut out = vec![0u8; 256];
        prog.detransform(&mut aux, &hd, 256, &mut out);
        check(out == img, "planar samples");
    }
}
'''),
 dict(id="C20-last-column", property="C20", edits=[(IMG, "if self.x >= self.width {", "if self.x + 1 >= self.width {")],
  needs="a width one more than a multiple of the block size",
  breaks="the last, one sample wide column of blocks is never visited",
  demo=r'''
fn main() {
    for w in 1..20usize {
        for h in 1..9usize {
            for b in 1..6usize {
                let mut d = vec![0i16; w * h * 2];
                let mut seen = vec![0; w * h * 2];
                for c in Image::from_slice(&mut d, (w, h), 2).into_chunks_mut(b, 1) {
                    for y in c.y_range.0..c.y_range.1 {
                        for x in c.x_range.0..c.x_range.1 {
                            seen[c.channel * w * h + y * w + x] += 1;
                        }
                    }
                }
                check(seen.iter().all(|&n| n == 1), "blocks do not cover the image once");
            }
        }
    }
}
'''),
 dict(id="C21-escape-depth", property="C21", edits=[(ENC, "if pot < 108 && x == 12 {\n        let new_pot = (pot + 4).min(108);", "if x == 12 {\n        let new_pot = (pot + 4).min(108);")],
  needs="a stream with a very long run of zero bits",
  breaks="recursion depth is bounded only by the input length: the stack overflows",
  demo=r'''
fn main() {
    let zeros = vec![0u8; 8 << 20];
    let mut b = &zeros[..];
    let mut s = BitsIOReader::new(&mut b);
    check(gfwx::encode::unsigned_decode(&mut s, 0).is_ok(), "bounded");
}
'''),
 dict(id="C22-turbo-threshold", property="C22", edits=[(ENC, '''    let mut run = -1;
    let mut run_coder =
        if scheme == Encoder::Turbo && ((q == 0) || ((step < 2048) && (q * step < 2048))) {''', '''    let mut run = -1;
    let mut run_coder =
        if scheme == Encoder::Turbo && ((q == 0) || ((step < 2048) && (q * step <= 2048))) {''')],
  needs="turbo encoder and a level where quality times step is exactly 2048",
  breaks="the decoder expects run lengths where the encoder wrote none",
  demo=r'''
fn main() {
    let mut r = Rng(12);
    for &(w, h) in &[(9u32, 7u32), (16, 16), (3, 2)] {
        let p = P { w, h, encoder: Encoder::Turbo, ..BASE };
        let img = r.bytes((w * h) as usize);
        let data = compressed(&img, p, &ColorTransformProgram::new());
        check(decompressed(&data) == img, "lossless round trip");
    }
}
'''),
 dict(id="C23-probe-writes", property="C23", edits=[(CMP, "if test || input_block.len() < blocks_sizes[block_index] {", "if input_block.len() < blocks_sizes[block_index] {")],
  needs="a probe (test mode) on the coefficient interface",
  breaks="test mode decodes the blocks into the caller's buffer",
  demo=r'''
fn main() {
    let hd = header(P { w: 20, h: 20, encoder: Encoder::Fast, ..BASE });
    let mut r = Rng(19);
    let mut a: Vec<i16> = (0..400).map(|_| r.i16(100)).collect();
    let mut buf = vec![0u8; 1 << 14];
    let n = compress_aux_data(&mut a, &hd, &[false], &mut buf).unwrap();
    let mut out = vec![4321i16; 400];
    check(decompress_aux_data(&buf[..n], &hd, &[false], 0, true, &mut out).unwrap() == 0, "complete");
    check(out.iter().all(|&x| x == 4321), "the probe wrote to the buffer");
}
'''),
]
