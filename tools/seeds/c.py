ENC = "src/encode/mod.rs"
CMP = "src/compress/mod.rs"
COL = "src/color_transform/mod.rs"
HDR = "src/header/mod.rs"
BLD = "src/header/builder.rs"
LIN = "src/lifting/linear.rs"
LIF = "src/lifting/mod.rs"
QNT = "src/quant/mod.rs"
BIT = "src/bits/mod.rs"
LIB = "src/lib.rs"
OVL = "src/processing/overlapping_chunks_iterator.rs"
SEEDS = [
 dict(id="C05-wide-row", property="C05", edits=[(LIN, "    while x < column.len() - step {", "    let end = if column.len() > 4096 { (column.len() - 1) & !(step - 1) } else { column.len() };\n    while x < end - step {"),
                                                (LIN, "    if x < column.len() {\n        *column", "    if x < end {\n        *column")],
  needs="a row of more than 4096 samples whose length is one more than a multiple of the step",
  breaks="the last sample of very wide rows is left out of the wavelet steps",
  demo=r'''
fn main() {
    for w in [4095usize, 4096, 4097, 4099, 5001, 8193] {
        let mut r = Rng(w as u64);
        let a: Vec<i16> = (0..w).map(|_| r.i16(500)).collect();
        let mut b = a.clone();
        lifting::lift_linear(&mut rows(&mut b, w));
        // the format's first predict step and everything after it, computed directly
        let mut c = a.clone();
        let mut step = 1;
        while step < w {
            for (start, div) in [(step, -1i16), (2 * step, 2)] {
                let mut x = start;
                while x + step < w {
                    let s = c[x - step].wrapping_add(c[x + step]);
                    c[x] = c[x].wrapping_add(s / (div * 2));
                    x += 2 * step;
                }
                if x < w {
                    c[x] = c[x].wrapping_add((c[x - step] as i32 / div as i32) as i16);
                }
            }
            step *= 2;
        }
        check(b == c, "forward transform");
    }
}
'''),
 dict(id="C16-size-wraps", property="C16", edits=[(CMP, "*block_size = chunk_size_buffer.read_u32::<LittleEndian>().unwrap() as usize * 4;", "*block_size = chunk_size_buffer.read_u32::<LittleEndian>().unwrap().wrapping_mul(4) as usize;")],
  needs="a table entry of 2^30 words or more",
  breaks="a block of which almost everything is missing counts as complete",
  demo=r'''
fn main() {
    let hd = header(P { w: 2, h: 2, ..BASE });
    for words in [1u32, 2, 1 << 29, 1 << 30, (1 << 30) + 1, 3 << 30] {
        let mut data = words.to_le_bytes().to_vec();
        data.extend_from_slice(&[0xff; 4]);
        let mut aux = vec![7i16; 4];
        let got = decompress_aux_data(&data, &hd, &[false], 0, true, &mut aux);
        let want = if words == 1 { 0 } else { 4 + words as usize * 4 };
        check(got.ok() == Some(want), "next point");
    }
}
'''),
 dict(id="C11-planes-wrap", property="C11", edits=[(BLD, '''        let layer_size = channel_size
            .checked_mul(self.layers as usize)
            .ok_or_else(|| HeaderErr::WrongValue(String::from("layer size is too large")))?;
        let image_size = layer_size
            .checked_mul(self.channels as usize)''', '''        let planes = self.layers.wrapping_mul(self.channels);
        let image_size = channel_size
            .checked_mul(usize::from(planes))''')],
  needs="a header whose layers times channels reach 65536",
  breaks="the image size of such a header is wrong (zero for 256 x 256 planes)",
  demo=r'''
fn main() {
    for (l, c) in [(1u16, 1u16), (255, 256), (256, 256), (1000, 1000), (65535, 65535)] {
        let hd = header(P { w: 3, h: 5, layers: l, channels: c, ..BASE });
        check(hd.get_image_size() == 15 * l as usize * c as usize, "image size");
    }
}
'''),
 dict(id="C08-layer-flag", property="C08", edits=[(COL, "if is_channel_transformed[channel_factor.src_channel] {", "if is_channel_transformed[channel_factor.src_channel % channels] {")],
  needs="an image of two or more layers and a program whose second layer reads a channel that is transformed only in the first",
  breaks="a source channel of another layer is taken for transformed: the transform reads samples that are not there yet",
  demo=r'''
fn main() {
    let hd = header(P { w: 4, h: 3, layers: 2, channels: 3, ..BASE });
    let mut prog = ColorTransformProgram::new();
    prog.add_channel_transform(ChannelTransformBuilder::with_dest_channel(1).add_channel_factor(0, 1).build());
    prog.add_channel_transform(ChannelTransformBuilder::with_dest_channel(3).add_channel_factor(4, 2).build());
    let mut r = Rng(5);
    let image = r.bytes(72);
    let mut aux = vec![0i16; 72];
    prog.transform_and_to_planar(&image, &hd, &mut aux);
    for i in 0..12 {
        let px = |c: usize| image[(c / 3) * 36 + i * 3 + c % 3] as i16;
        check(aux[12 + i] == px(1) + px(0), "channel 1");
        check(aux[36 + i] == px(3) + 2 * px(4), "channel 3");
    }
}
'''),
 dict(id="C09-narrow-factor", property="C09", edits=[(COL, "signed_code(channel_factor.factor as i32, &mut stream, 2)?;", "signed_code(channel_factor.factor as i16 as i32, &mut stream, 2)?;")],
  needs="a factor outside the 16-bit range",
  breaks="the factor is serialized modulo 65536: the decoded program differs",
  demo=r'''
fn main() {
    for f in [1isize, -1, 32767, 32768, -32769, 70000, 1 << 20] {
        let mut prog = ColorTransformProgram::new();
        prog.add_channel_transform(ChannelTransformBuilder::with_dest_channel(0).add_channel_factor(1, f).build());
        let mut buf = vec![];
        prog.encode(2, &mut buf).unwrap();
        let mut flags = [false; 2];
        let got = ColorTransformProgram::decode(&mut &buf[..], &mut flags).unwrap();
        check(got == prog, "program");
    }
}
'''),
 dict(id="C17-write-zero", property="C17", edits=[(ENC, '''    stream: &mut impl BitsWriter,
    pot: u32,
) -> io::Result<()> {
''', '''    stream: &mut impl BitsWriter,
    pot: u32,
) -> io::Result<()> {
''')], skip=True, needs="", breaks="", demo=""),
 dict(id="C17-eof-is-zero", property="C17", edits=[(BIT, '''        self.put_bits(0, (32 - index_bits) % 32)?;

        Ok(())''', '''        match self.put_bits(0, (32 - index_bits) % 32) {
            Err(ref e) if e.kind() == io::ErrorKind::WriteZero => Ok(()),
            result => result,
        }''')],
  needs="an output that is full exactly when the last partial word is flushed",
  breaks="the last word of a block or program is lost without an error",
  demo=r'''
fn main() {
    for room in 0..5usize {
        for bits in 1..=128u32 {
            let mut buf = vec![0u8; room * 4];
            let mut left = &mut buf[..];
            let mut s = BitsIOWriter::new(&mut left);
            let mut ok = true;
            for _ in 0..bits {
                ok = ok && s.put_bits(1, 1).is_ok();
            }
            ok = ok && s.flush_write_word().is_ok();
            check(ok == ((bits as usize + 31) / 32 <= room), "error lost");
        }
    }
}
'''),
 dict(id="C21-table-alloc", property="C21", edits=[(CMP, '''        let blocks_size_sum: usize = blocks_sizes.iter().sum();
''', '''        let blocks_size_sum: usize = blocks_sizes.iter().sum();
        let mut padded = Vec::new();
        if blocks_buffer.len() < blocks_size_sum && !test {
            padded.reserve_exact(blocks_size_sum);
            padded.extend_from_slice(blocks_buffer);
        }
        let blocks_buffer = if padded.is_empty() { blocks_buffer } else { &padded[..] };
''')],
  needs="a table that promises gigabytes",
  breaks="the decoder reserves as much memory as the (untrusted) table says",
  run='cargo build --release --offline --quiet 2> "$work/log" || { cat "$work/log"; exit 3; }\nulimit -v 4000000\ntimeout 200 "$work/target/release/demo"',
  demo=r'''
fn main() {
    let hd = header(P { w: 64, h: 64, block: 2, ..BASE });
    let mut aux = vec![0i16; 64 * 64];
    let mut data = vec![0xffu8; 4];
    data.extend_from_slice(&[1, 2, 3, 4]);
    let got = decompress_aux_data(&data, &hd, &[false], 0, false, &mut aux);
    check(got.is_ok(), "truncated data");
}
'''),
 dict(id="C23-probe-complete", property="C23", edits=[(CMP, "if blocks_buffer.len() >= blocks_size_sum {", "if test || blocks_buffer.len() >= blocks_size_sum {")],
  needs="probing data that ends inside the last level wanted",
  breaks="a probe reports truncated data as complete",
  demo=r'''
fn main() {
    let mut r = Rng(3);
    let image = r.bytes(32 * 32);
    let data = compressed(&image, P { w: 32, h: 32, ..BASE }, &ColorTransformProgram::new());
    let mut b = &data[..];
    let hd = Header::decode(&mut b).unwrap();
    for n in 8..b.len() {
        let mut out = vec![0u8; hd.get_decompress_buffer_size(0)];
        let x = decompress_simple(&b[..n], &hd, 0, true, &mut out);
        let y = decompress_simple(&b[..n], &hd, 0, false, &mut out);
        if let (Ok(x), Ok(y)) = (x, y) {
            check(x == y, "probe and decompression disagree");
        }
    }
}
'''),
 dict(id="C14-feature-slot", property="C14", edits=[(CMP, "        let temp_block_size = blocks_buffer_free_space / block_count;\n", '''        let mut temp_block_size = blocks_buffer_free_space / block_count;
        if cfg!(feature = "rayon") && hint_do_parallel {
            // keep slots of different workers on different cache lines
            temp_block_size &= !63;
        }
''')],
  needs="an image big enough for the parallel path and a buffer with little slack",
  breaks="compression into a tight buffer succeeds without the rayon feature and fails with it",
  run='''cargo build --release --offline --quiet 2> "$work/log" || { cat "$work/log"; exit 3; }
"$work/target/release/demo" > "$work/a" || exit 1
sed -i 's/"$crate"/X/; s#gfwx = { path = \\(.*\\) }#gfwx = { path = \\1, default-features = false }#' Cargo.toml
cargo build --release --offline --quiet 2> "$work/log" || { cat "$work/log"; exit 3; }
"$work/target/release/demo" > "$work/b" || exit 1
cmp "$work/a" "$work/b"''',
  demo=r'''
fn main() {
    let hd = header(P { w: 160, h: 160, block: 2, ..BASE });
    let mut r = Rng(11);
    let aux: Vec<i16> = (0..160 * 160).map(|_| r.i16(30)).collect();
    for n in (90_000..130_000).step_by(500) {
        let mut a = aux.clone();
        let mut buf = vec![0u8; n];
        println!("{} {:?}", n, compress_aux_data(&mut a, &hd, &[false], &mut buf).ok());
    }
}
'''),
 dict(id="C14-scratch-reuse", property="C14", edits=[(LIB, '''    let mut aux_data = vec![0i16; header.get_image_size()];
    color_transform.transform_and_to_planar(&image, &header, &mut aux_data);

    Ok(service_len + compress_aux_data(&mut aux_data, &header, &is_chroma, &mut buffer)?)
}
''', '''    SCRATCH.with(|scratch| {
        let mut aux_data = scratch.borrow_mut();
        aux_data.resize(header.get_image_size(), 0);
        color_transform.transform_and_to_planar(&image, &header, &mut aux_data);

        Ok(service_len + compress_aux_data(&mut aux_data, &header, &is_chroma, &mut buffer)?)
    })
}

thread_local! {
    static SCRATCH: std::cell::RefCell<Vec<i16>> = std::cell::RefCell::new(Vec::new());
}
''')],
  needs="two compressions on the same thread, with a program that has factors",
  breaks="the second compression adds to what the first one left in the buffer: the bytes depend on what ran before on that thread",
  demo=r'''
fn main() {
    let mut r = Rng(9);
    let prog = ColorTransformProgram::rgb_to_yuv();
    let p = P { w: 9, h: 7, channels: 3, ..BASE };
    let other = r.bytes(9 * 7 * 3);
    let image = r.bytes(9 * 7 * 3);
    let first = { let image = image.clone(); std::thread::spawn(move || compressed(&image, p, &ColorTransformProgram::rgb_to_yuv())).join().unwrap() };
    compressed(&other, p, &prog);
    check(compressed(&image, p, &prog) == first, "bytes depend on the history");
}
'''),
 dict(id="C07-parallel-first-row", property="C07", edits=[(QNT, '''                let x_step = if (y & skip) != 0 { skip } else { 2 * skip };
                for x in column.iter_mut().skip(x_step - skip).step_by(x_step) {
                    *x = (i32::from(*x) * q).wrapping_div(max_quality) as i16;''', '''                let x_step = if (y & skip) != 0 { skip } else { 2 * skip };
                if hint_do_parallel && y == 0 && skip > 4 {
                    return;
                }
                for x in column.iter_mut().skip(x_step - skip).step_by(x_step) {
                    *x = (i32::from(*x) * q).wrapping_div(max_quality) as i16;''')],
  needs="an image of more than 9216 samples and a quality below 64",
  breaks="the first row of large images is not quantized at the coarse levels",
  demo=r'''
fn main() {
    for (w, h) in [(64usize, 64usize), (96, 96), (97, 96), (128, 130)] {
        let mut r = Rng(w as u64);
        let a: Vec<i16> = (0..w * h).map(|_| r.i16(9000)).collect();
        let mut b = a.clone();
        quant::quantize(&mut rows(&mut b, w), 3, 0, 8192);
        let mut c = a.clone();
        let (mut skip, mut q) = (1usize, 3i32);
        while skip < h && skip < w && q < 8192 {
            for y in (0..h).step_by(skip) {
                for x in (0..w).step_by(skip) {
                    if (x / skip) % 2 == 1 || (y / skip) % 2 == 1 {
                        c[y * w + x] = (c[y * w + x] as i32 * q / 8192) as i16;
                    }
                }
            }
            skip *= 2;
            q = 8192.min(2 * q);
        }
        check(b == c, "quantized");
    }
}
'''),
 dict(id="C15-slot-cap", property="C15", edits=[(CMP, "        let temp_block_size = blocks_buffer_free_space / block_count;\n", "        let temp_block_size = (blocks_buffer_free_space / block_count).min(1 << 16);\n")],
  needs="a block that needs more than 64 KiB",
  breaks="compression reports an overflow although the buffer is large enough",
  demo=r'''
fn main() {
    let p = P { w: 300, h: 300, block: 10, ..BASE };
    let mut r = Rng(4);
    let image = r.bytes(300 * 300);
    let hd = header(p);
    let mut buf = vec![0u8; 4_000_000];
    let got = compress_simple(&image, &hd, &ColorTransformProgram::new(), &mut buf);
    check(got.is_ok(), "overflow");
    let n = got.unwrap();
    buf.truncate(n);
    check(decompressed(&buf) == image, "image");
}
'''),
 dict(id="C20-even-tail", property="C20", edits=[(CMP, "    let width = header.width as usize;\n    let height = header.height as usize;\n    let layers = usize::from(header.layers);\n    let channels = usize::from(header.channels);\n\n    let mut step = 1;\n    while step * 2 < width || step * 2 < height {\n        step *= 2;\n    }\n    if (step << header.block_size) == 0 {\n        return Err(CompressError::Overflow);", "")], skip=True, needs="", breaks="", demo=""),
 dict(id="C06-saturated", property="C06", edits=[("src/lifting/cubic.rs", "    median(round_fraction(num, 16), c1, c2)", "    median(round_fraction(num.max(-(1 << 18)), 16), c1, c2)")],
  needs="two neighbouring samples below -14000",
  breaks="the cubic interpolation saturates for very negative samples",
  demo=r'''
fn main() {
    for a in [-32768i32, -30000, -20000, -16000, -100, 0, 100, 20000, 32767] {
        for b in [-32768i32, -29000, -20001, -16385, -7, 0, 3, 20000, 32767] {
            let mut data: Vec<i16> = vec![a as i16, 0, b as i16];
            lifting::lift_cubic(&mut rows(&mut data, 3));
            // edge interpolation of width 3: predict of the middle from a, a, b, b (linear extension)
            let num = -a + 9 * (a + b) - b;
            let v = if num < 0 { (num - 8) / 16 } else { (num + 8) / 16 };
            let v = v.min(a.max(b)).max(a.min(b));
            check(data[1] == (0i16).wrapping_sub(v as i16), "interpolation");
        }
    }
}
'''),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
SEEDS += [
 dict(id="C18-quality-shift", property="C18", edits=[(CMP, "quality << downsampling,", "quality << downsampling.min(3),")],
  needs="downsampling by 16 or more of an image compressed at low quality",
  breaks="the coarse coefficients of a strongly reduced image are dequantized with the wrong step",
  demo=r"""
fn main() {
    let p = P { w: 200, h: 150, channels: 1, quality: 24, ..BASE };
    let mut image = vec![];
    for y in 0..150usize {
        for x in 0..200usize {
            image.push(((x * x / 90 + y * 3 / 2 + (x ^ y) / 7) % 256) as u8);
        }
    }
    let data = compressed(&image, p, &ColorTransformProgram::new());
    for d in 0..7usize {
        let mut b = &data[..];
        let hd = Header::decode(&mut b).unwrap();
        let mut out = vec![0u8; hd.get_decompress_buffer_size(d)];
        decompress_simple(b, &hd, d, false, &mut out).unwrap();
        let mut h = 0xcbf29ce484222325u64;
        for x in out {
            h = (h ^ x as u64).wrapping_mul(0x100000001b3);
        }
        println!("{d}: {h:#x}");
        check(h == [0x19e8e6848d9ab304u64, 0x23ba6ddfa86e7c9c, 0xbaa5d3b0651d21f, 0xc9ff0b91e6e27957, 0xb80a0fb81c9bf58c, 0xc323ef8969637b6b, 0x5aa447a3c24ecdf5][d], "reduced image");
    }
}
"""),
]
