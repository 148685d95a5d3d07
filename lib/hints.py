"""Distributions for random interpretation: geometry that makes the deep parts of a value graph matter.

Hints only shape which samples are drawn; a sample can never turn equal graphs into different ones."""
import random
import terms as T
from terms import mk

FIELDS = ["version", "width", "height", "layers", "channels", "bit_depth", "is_signed", "quality", "chroma_scale",
          "block_size", "filter", "quantization", "encoder", "intent", "metadata", "channel_size", "image_size"]
IX = {n: i for i, n in enumerate(FIELDS)}


def pick(*xs):
    return lambda ev, h, ix: xs[h % len(xs)]


def dim(r, lo, hi):
    """a size; on enlarged samples (r.big) one of them, or the product of two, comes near a given constant"""
    b = getattr(r, "big", None)
    if b is None:
        return r.randint(lo, hi)
    b.k += 1
    if b.k == b.at:
        return max(lo, b.first)
    if b.k == b.at + 1 and b.second:
        return b.second
    return r.randint(lo, max(lo, min(hi, 3)))


class Big:
    """at: which size is enlarged; first, second: the sizes to use from there on"""

    def __init__(self, c, at, area, delta):
        self.k, self.at, self.c = 0, at, c
        if area:
            self.first = max(1, int(c ** .5))
            self.second = max(1, (c + self.first - 1) // self.first + delta)
        else:
            self.first, self.second = max(0, c + delta), None


def header(r, p, maxwh=9, maxplanes=4, wide=False):
    """scalar fields of a header at provenance p"""
    w, h = dim(r, 1, maxwh), dim(r, 1, maxwh)
    if r.random() < .15 and not hasattr(r, "big"):
        w, h = r.choice([(1, 1), (1, h), (w, 1), (2, 2), (3, 2), (17, 2), (2, 17), (5, 9), (33, 1)])
    layers, channels = r.choice([(1, 1), (1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (1, 4)])
    while layers * channels > maxplanes:
        layers, channels = 1, channels - 1 if channels > 1 else 1
    q = r.choice([1024, 1024, 1, 2, 100, 512, 700, 1023, r.randint(1, 1024)])
    cs = r.choice([1, 2, 3, 8, 255, r.randint(1, 255)])
    bs = r.choice([2, 2, 2, 3, 3, 4, 7])
    if hasattr(r, "big"):
        bs = r.choice([2, 7, 7, 11, 13])
        layers, channels = r.choice([(1, 1), (1, 1), (1, 2), (2, 1)])
    v = dict(width=w, height=h, layers=layers, channels=channels, quality=q, chroma_scale=cs, block_size=bs,
             bit_depth=8, is_signed=0, channel_size=w * h, image_size=w * h * layers * channels)
    if wide:
        v["bit_depth"] = r.choice([1, 8, 8, 9, 16])
        v["is_signed"] = r.choice([0, 0, 0, 1])
    d = {}
    for k, x in v.items():
        d["%s.%d" % (p, IX[k])] = x
    for e, n in (("filter", 2), ("quantization", 1), ("encoder", 3), ("intent", 14)):
        d["%s.%d?" % (p, IX[e])] = r.randrange(n)
    return v, d


def program(r, p, planes, valid=True):
    nt = r.choice([0, 1, 1, 2, 2, 3])
    d = {p + ".1": nt}
    ch = lambda ev, h, ix: h % planes if h % 97 else planes + h % 3
    d[p + ".0[#].0"] = ch if not valid else (lambda ev, h, ix: h % planes)
    d[p + ".0[#].1.1"] = lambda ev, h, ix: h % 3
    d[p + ".0[#].1.0[#].0"] = ch if not valid else (lambda ev, h, ix: h % planes)
    d[p + ".0[#].1.0[#].1"] = lambda ev, h, ix: (-3, -1, 1, 2, 5, 0)[h % 6]
    d[p + ".0[#].2"] = lambda ev, h, ix: (1, 1, 2, 4, 7, 0, -2)[h % 7]
    d[p + ".0[#].3"] = lambda ev, h, ix: h & 1
    return d


def sample16(ev, h, ix):
    k = h & 7
    v = (h >> 8) & 0xffff
    if k < 4:
        return (v & 1023) - 512
    if k < 5:
        return (v & 7) - 3
    if k < 6:
        return (0x8000, 0x7fff, 0xffff, 0, 1, 0xc000, 0x4000)[v % 7]
    return v


def zoom(x, d):
    return (x + (1 << d) - 1) >> d if d < 64 else 0


def near(r, n):
    if hasattr(r, "big"):
        return n
    return max(0, r.choice([n, n, n, n, n, n + 1, n + 3, n - 1]))


# ---------------------------------------------------------------- per function

def compress_image_data(r):
    v, d = header(r, "*a1", maxwh=7, maxplanes=3)
    planes = v["layers"] * v["channels"]
    d["len:a0"] = near(r, v["image_size"])
    d["*a0[#]"] = sample16
    d["len:a2"] = dim(r, 0, 0) or r.choice([900, 400, 300, 200, 120, r.randint(0, 400), r.randint(0, 120)])
    d["len:a3"] = near(r, planes)
    d["*a3[#]"] = pick(0, 1)
    big = r.random() < .15
    adv = lambda ev, h, ix: (0, 4, 4, 8, 8, 12, 40 if big else 4, 6 if big else 0)[h % 8]
    if hasattr(r, "big") and r.big.at < 3:
        d["len:a2"] = 2 * v["image_size"] + 4096
    if hasattr(r, "big") and r.big.at == 99:
        # blocks that need about as many bytes
        c = r.big.c & ~3
        d["len:a2"] = r.choice([1, 1, 2]) * planes * 2 * c + 4096
        adv = lambda ev, h, ix: (4, c + 4, 4)[h % 3]
    d["encode::encode:adv/1/0/p"] = adv
    d["bits::BitsWriter::flush_write_word:adv/0/0/p"] = lambda ev, h, ix: (0, 4, 4)[h % 3]
    ok = r.random() < .2
    d["encode::encode:ok"] = lambda ev, h, ix: not ok or h % 5 != 0
    d["bits::BitsWriter::flush_write_word:ok"] = lambda ev, h, ix: not ok or h % 5 != 0
    return d


def le_table(p, huge=False):
    """bytes that make sensible little-endian word counts wherever a table may lie"""
    def g(ev, h, ix):
        if ix is None:
            return h & 255
        if ix % 4 == 0:
            return (0, 1, 1, 2, 2, 3, 4, 9)[h % 8]
        if huge and ix % 4 == 3 and h % 5 == 0:
            return 1 << (h >> 8) % 8
        return h % 3 if h % 67 == 0 else 0
    return g


def decompress_image_data(r):
    v, d = header(r, "*a1", maxplanes=3)
    planes = v["layers"] * v["channels"]
    ds = r.choice([0, 0, 0, 0, 1, 1, 2, 3])
    d["a3"] = ds
    d["a4"] = r.choice([0, 0, 0, 1])
    n = zoom(v["width"], ds) * zoom(v["height"], ds) * planes
    d["len:a0"] = near(r, n)
    d["*a0[#]"] = sample16
    d["len:a2"] = r.choice([3000, 1000, r.randint(0, 64), r.randint(0, 200), r.randint(0, 400), r.randint(0, 1000), 4 * r.randint(0, 120)])
    d["len:a5"] = near(r, planes)
    d["*a5[#]"] = pick(0, 1)
    d["*a2[#]"] = le_table("*a2", r.random() < .1)
    bad = r.random() < .15
    d["encode::decode:ok"] = lambda ev, h, ix: not bad or h % 5 != 0
    d["byteorder::ReadBytesExt::read_u32:ok"] = 1
    return d


def planes_of(hdr_arg, data, chroma, ds_arg=None):
    def f(r):
        v, d = header(r, hdr_arg, maxwh=6)
        planes = v["layers"] * v["channels"]
        ds = 0
        if ds_arg:
            ds = r.choice([0, 0, 1, 2])
            d[ds_arg] = ds
        n = zoom(v["width"], ds) * zoom(v["height"], ds) * planes
        d["len:" + data] = near(r, n)
        d["len:" + chroma] = near(r, planes)
        d["*%s[#]" % chroma] = pick(0, 1)
        d["*%s[#]" % data] = sample16
        return d
    return f


def aux(r):
    d = planes_of("*a1", "a0", "a2")(r)
    return d


def de_aux(r):
    v, d = header(r, "*a1", maxwh=6)
    planes = v["layers"] * v["channels"]
    ds = r.choice([0, 0, 1, 2])
    d["a3"] = ds
    d["a4"] = r.choice([0, 0, 0, 1])
    d["len:a5"] = near(r, zoom(v["width"], ds) * zoom(v["height"], ds) * planes)
    d["len:a2"] = near(r, planes)
    return d


def transform(src, hdr, dst, inter):
    def f(r):
        v, d = header(r, hdr, maxwh=3, wide=True)
        planes = v["layers"] * v["channels"]
        if r.random() < .1 and not hasattr(r, "big"):
            v["channel_size"] = d[hdr + ".15"] = max(1, v["channel_size"] - 1)
        d.update(program(r, "*a0.0", planes, valid=r.random() < .8))
        n = v["channel_size"] * planes
        d["len:" + src] = near(r, n)
        d["len:" + dst] = near(r, n)
        d["*%s[#]" % src] = lambda ev, h, ix: h & 255
        d["*%s[#]" % dst] = (lambda ev, h, ix: 0) if r.random() < .5 else sample16
        return d
    return f


def detransform(r):
    v, d = header(r, "*a2", maxwh=3, wide=True)
    planes = v["layers"] * v["channels"]
    d.update(program(r, "*a0.0", planes, valid=r.random() < .85))
    size = v["width"] * v["height"]
    d["a3"] = size
    n = size * planes
    d["len:a1"] = near(r, n)
    d["len:a4"] = near(r, n) if r.random() < .7 else n + r.randint(0, 5)
    d["*a1[#]"] = sample16
    bad = r.random() < .1
    d["num_traits::NumCast::from:ok"] = lambda ev, h, ix: not bad or h % 9 != 0
    d["num_traits::NumCast::from:some"] = d["num_traits::NumCast::from:ok"]
    return d


def convert(inp, out, scale):
    def f(r):
        planes = r.randint(1, 3)
        n = dim(r, 1, 7) * planes
        d = {"a1": planes, "len:a0": near(r, n), "len:a3": near(r, n), "len:a4": r.choice([0, 1, 2])}
        d["*a4[#]"] = lambda ev, h, ix: h % (planes + 1)
        d["a2"] = r.choice([1, 8, 8, 3, -1])
        bad = r.random() < .1
        d["num_traits::NumCast::from:ok"] = lambda ev, h, ix: not bad or h % 9 != 0
        d["*a0[#]"] = sample16
        return d
    return f


def prog_encode(r):
    planes = r.randint(1, 4)
    d = program(r, "*a0.0", planes, valid=r.random() < .8)
    if r.random() < .4:
        wide = lambda ev, h, ix: (3, -1, 127, -129, 300, -1000, 32768, -32769, 70000, -(1 << 20), (1 << 31) - 1, -(1 << 31))[h % 12]
        d["*a0.0.0[#].1.0[#].1"] = d["*a0.0.0[#].2"] = wide
    d["a1"] = planes
    bad = r.random() < .3
    for n in ("encode::signed_code", "bits::BitsWriter::flush_write_word"):
        d[n + ":ok"] = lambda ev, h, ix: not bad or h % 6 != 0
    return d


def prog_decode(r):
    planes = r.randint(1, 4)
    d = {"len:a1": planes}
    bad = r.random() < .25
    d["encode::signed_decode:ok"] = lambda ev, h, ix: not bad or h % 9 != 0
    d["encode::signed_decode:some"] = 1

    def val(ev, h, ix):
        k = h % 16
        if k < 6:
            return -1
        if k < 13:
            return (h >> 8) % planes
        if k < 15:
            return planes if (h >> 8) % 3 else planes + 1
        return (planes, -2, 0, 65536, 65535, 40000, -32768, 32768)[(h >> 8) % 8]
    for k in ("ret/val",):
        d["encode::signed_decode:" + k] = val
    return d


def rows(r):
    w, h = dim(r, 1, 9), dim(r, 0, 9)
    ragged = r.random() < .05
    d = {"len:a0": h, "*a0[#][#]": sample16, "**a0[#][#]": sample16,
         "len:*a0[#]": (lambda ev, hh, ix: w - hh % 2) if ragged else w}
    return d


def quant(r):
    d = rows(r)
    d["a1"] = r.choice([1, 16, 100, 512, 1000, 1024, 8192, 300])
    d["a2"] = r.choice([0, 0, 0, 1, 4, 512])
    d["a3"] = r.choice([1024, 1024, 8192, 8192, 512])
    return d


CH = dict(data_len=1, image_width=3, channel_size=4, channel_start=5, x_range=6, y_range=7, channel=8, step=9)


def chunk(r, p):
    """a block as the iterator makes it: step is a power of two, blocks lie on a grid of step << n, clipped to the image"""
    step = r.choice([1, 1, 2, 2, 4, 8])
    size = step * r.choice([2, 4, 4, 8])
    w, h = dim(r, 1, 3 * size), dim(r, 1, 3 * size)
    if hasattr(r, "big") and r.random() < .7:
        while size < max(w, h):
            size *= 2
    elif r.random() < .1:
        w, h = r.choice([(1, 1), (w, 1), (1, h)])
    x0, y0 = r.randrange((w + size - 1) // size) * size, r.randrange((h + size - 1) // size) * size
    x1, y1 = min(w, x0 + size), min(h, y0 + size)
    c, n = r.randrange(3), 3
    b = dict(data_len=w * h * n, image_width=w, channel_size=w * h, channel_start=c * w * h, channel=c, step=step)
    d = {"%s.%d" % (p, CH[k]): v for k, v in b.items()}
    for k, lo, hi in (("x_range", x0, x1), ("y_range", y0, y1)):
        d["%s.%d.0" % (p, CH[k])], d["%s.%d.1" % (p, CH[k])] = lo, hi
    b.update(x0=x0, x1=x1, y0=y0, y1=y1)
    return b, d


def pixel(r):
    b, d = chunk(r, "*a0")
    y, x = r.randrange(b["y0"], b["y1"] + 1), r.randrange(b["x0"], b["x1"] + 1)
    if r.random() < .6:
        y, x = y // b["step"] * b["step"], x // b["step"] * b["step"]
    if r.random() < .15:
        x = r.randrange(0, 2 * b["x1"] + 1)
    if r.random() < .15:
        y = r.randrange(0, 2 * b["y1"] + 1)
    d["a1"], d["a2"], d["a1.0"], d["a1.1"] = y, x, y, x
    return d


def codec(p):
    def f(r):
        b, d = chunk(r, p)
        d["a3"] = r.choice([1024, 0, 1, 100, 700, 512, 1024, 1024])
        d["a4"] = r.choice([0, 1])
        d["a5"] = r.choice([0, 1])
        d["a2?"] = r.randrange(3)
        bad = r.random() < .1
        for n in ("encode::signed_code", "encode::unsigned_code", "encode::interleaved_code", "encode::encode_s",
                  "encode::signed_decode", "encode::unsigned_decode", "encode::interleaved_decode", "encode::get_s"):
            d[n + ":ok"] = lambda ev, h, ix: not bad or h % 12 != 0

        lev = r.choice([0, 0, 0, 1, 1, 2, 3, 5, 8, 20, 60, 300])

        def small(ev, h, ix):
            if lev:
                return 2 * lev - (h & 1) if h % 16 else 0
            return (0, 1, 2, 3, 0, 1, 5, 9)[h % 8]
        for k in ("ret/val",):
            d["encode::unsigned_decode:" + k] = small
            if lev:
                for n in ("encode::signed_decode:", "encode::interleaved_decode:", "encode::get_s:"):
                    d[n + k] = lambda ev, h, ix: (lev - (h >> 4) % 3 % (lev + 1) * (h >> 9 & 1)) * (1 if h & 2 else -1) if h % 40 else 0
        d["encode::get_run_coder:ret"] = lambda ev, h, ix: (0, 0, 1, 2, 4)[h % 5]
        d["encode::get_run_coder_fast:ret"] = lambda ev, h, ix: (0, 0, 1, 2, 4)[h % 5]
        # many zero samples so that runs occur
        zs = r.choice([2, 3, 6])
        if lev:
            # steady magnitudes: the adaptive state settles near its thresholds
            one = r.random() < .5
            d["**a0.0[#]"] = lambda ev, h, ix: (lev if one or h & 1 else lev - (h >> 4) % 3) * (1 if h & 2 else -1) if h % 40 else 0
        else:
            d["**a0.0[#]"] = lambda ev, h, ix: 0 if h % zs else ((h >> 8) % 7) - 3 if h % 5 else sample16(ev, h >> 3, ix)
        return d
    return f


def context(r):
    b, d = chunk(r, "*a0")
    w, h = b["x1"] - b["x0"], b["y1"] - b["y0"]
    s = b["step"]
    x, y = r.randrange(w) // s * s, r.randrange(h) // s * s
    if not (y & s) and not (x & s):
        x = x + s if x + s < w else x
    d["a1"], d["a2"] = x, y
    d["**a0.0[#]"] = sample16
    return d


def simple_dec(r):
    v, d = header(r, "*a1", maxwh=5)
    d["a2"] = r.choice([0, 0, 1, 2])
    d["a3"] = r.choice([0, 0, 0, 1])
    n = zoom(v["width"], d["a2"]) * zoom(v["height"], d["a2"]) * v["layers"] * v["channels"]
    d["len:a4"] = near(r, n)
    d["len:a0"] = dim(r, 0, 40)
    return d


def simple_comp(r):
    v, d = header(r, "*a1", maxwh=5)
    n = v["image_size"]
    d["len:a0"] = near(r, n)
    d["len:a3"] = dim(r, 0, 200)
    return d


def bits(r):
    d = {"*a0.2": r.choice([0, 31, 30, 1, r.randint(0, 31), r.randint(0, 31), r.randint(0, 31)]),
         "a1": r.choice([1, 1, 12, 24, 32, 31, r.randint(1, 32)])}
    d["*a0.1"] = lambda ev, h, ix: (h >> 8) & 0xffffffff if h & 1 else 1 << ((h >> 8) % 32) if h & 2 else 0
    z = r.random() < .5
    for i in range(4):
        d["io.read:b/%d" % i] = lambda ev, h, ix: 0 if z and h & 3 else h >> 8 & 255
    return d


def wbits(r):
    d = bits(r)
    n = d["a2"] = r.choice([0, 1, 12, 24, 31, r.randint(0, 31)])
    d["a1"] = r.choice([0, 1, r.getrandbits(n), (1 << n) - 1, r.getrandbits(n)]) & ((1 << n) - 1)
    del d["*a0.1"]
    if r.random() < .6:
        d["*a0.1"] = r.getrandbits(d["*a0.2"]) if d["*a0.2"] else 0
    return d


def hdr_decode(r):
    d = {}

    def field(k, n, v):
        for i in range(n):
            d["io.read@%d:b/%d" % (k, i)] = v >> (8 * i) & 255
    field(0, 4, 0x58574647 if r.random() < .97 else r.randint(0, 1 << 32))
    bad = lambda lo, hi, p=.04: r.choice([hi + 1, 255, 65535 & ((1 << 16) - 1)]) if r.random() < p else r.randint(lo, hi)
    field(2, 4, r.choice([1, 2, 5, 100, 65535, 1 << 31, 0] + [r.randint(1, 5000)] * 9))
    field(3, 4, r.choice([1, 2, 5, 100, 65535, 1 << 31, 0] + [r.randint(1, 5000)] * 9))
    field(4, 2, r.choice([0, 1, 2, 3, 2, 65535, 65534]))
    field(5, 2, r.choice([0, 0, 0, 1, 2, 65535, 65534]))
    field(6, 3, r.randint(0, 0x3fffff) & ~31 | r.choice([0, 5, 28, 29, 30, 31, r.randint(0, 28)]) | (0x800000 if r.random() < .1 else 0) | (0x400000 if r.random() < .1 else 0))
    field(7, 1, r.choice([0, 7, 7, 3, 6, 8, 255, 254]) if r.random() < .4 else r.randint(0, 7))
    field(8, 1, bad(0, 13))
    field(9, 1, bad(0, 2))
    field(10, 1, bad(0, 0))
    field(11, 1, bad(0, 1))
    field(12, 4, r.choice([0, 1, 5, 0x3fffffff, 0x40000000, 0xffffffff, r.randint(0, 99999)]))
    if r.random() < .15:
        d["io.read@%d:ok" % r.randrange(13)] = 0
    else:
        d["io.read:ok"] = 1
    return d


BY_NAME = {
    "header::Header::decode": hdr_decode,
    "<bits::BitsIOWriter as bits::BitsWriter>::put_bits": wbits, "<bits::BitsIOWriter as bits::BitsWriter>::flush_write_word": wbits,
    "<bits::BitsIOReader as bits::BitsReader>::get_bits": bits, "<bits::BitsIOReader as bits::BitsReader>::get_zeros": bits,
    "compress::compress_image_data": compress_image_data,
    "compress::decompress_image_data": decompress_image_data,
    "compress::compress_aux_data": aux,
    "compress::decompress_aux_data": de_aux,
    "compress::lift_and_quantize": planes_of("*a1", "a0", "a2"),
    "compress::unlift_and_dequantize": planes_of("*a1", "a0", "a2", "a3"),
    "color_transform::ColorTransformProgram::transform_and_to_planar": transform("a1", "*a2", "a3", True),
    "color_transform::ColorTransformProgram::transform": transform("a1", "*a2", "a3", False),
    "color_transform::ColorTransformProgram::detransform_and_to_interleaved": detransform,
    "color_transform::ColorTransformProgram::detransform": detransform,
    "color_transform::interleaved_to_planar": convert("a0", "a3", 1),
    "color_transform::planar_to_interleaved": convert("a0", "a3", 0),
    "color_transform::ColorTransformProgram::encode": prog_encode,
    "color_transform::ColorTransformProgram::decode": prog_decode,
    "lifting::linear::lift_linear": rows, "lifting::linear::unlift_linear": rows,
    "lifting::cubic::lift_cubic": rows, "lifting::cubic::unlift_cubic": rows,
    "quant::quantize": quant, "quant::dequantize": quant,
    "encode::encode": codec("*a0"), "encode::decode": codec("a0"),
    "encode::get_context": context,
    "processing::image::ImageChunkMut::get_unchecked": pixel, "processing::image::ImageChunkMut::get_unchecked_mut": pixel,
    "<processing::image::ImageChunkMut as std::ops::Index>::index": pixel, "<processing::image::ImageChunkMut as std::ops::IndexMut>::index_mut": pixel,
    "decompress_simple": simple_dec, "compress_simple": simple_comp,
}
CAPS = {"compress::compress_image_data": 400, "compress::decompress_image_data": 700}




def long_row(p, scheme, n=70000):
    """one row of n samples of the finest level, zero but for the last: runs longer than 2^16"""
    def f():
        d = codec(p)(random.Random(n))
        w = 2 * n
        for k, v in dict(data_len=w, image_width=w, channel_size=w, channel_start=0, channel=0, step=1).items():
            d["%s.%d" % (p, CH[k])] = v
        for k, lo, hi in (("x_range", 0, w), ("y_range", 0, 1)):
            d["%s.%d.0" % (p, CH[k])], d["%s.%d.1" % (p, CH[k])] = lo, hi
        d["a2?"], d["a3"], d["a4"], d["a5"] = scheme, 0, 0, 0
        d["**a0.0[#]"] = lambda ev, h, ix: 0
        for k in list(d):
            if k.endswith(":ok"):
                d[k] = 1
        d["encode::unsigned_decode:ret/val"] = lambda ev, h, ix: n - 7
        for k in ("encode::get_run_coder:ret", "encode::get_run_coder_fast:ret"):
            d[k] = 4
        return d
    return f


# samples that make a function's loops run long, for changes that show only then
LONG = {
    "encode::encode": [long_row("*a0", 0), long_row("*a0", 1)],
    "encode::decode": [long_row("a0", 0), long_row("a0", 1)],
}


SLOTS = {"compress::compress_image_data"}


def enlarged(name, cs, seed):
    """samples whose sizes, or sample values, come near constants only the code under test has"""
    f = BY_NAME.get(name)
    if f is None:
        return []
    out = []

    def sized(c, at, area, delta, s):
        def g():
            r = random.Random(s)
            r.big = Big(c, at, area, delta)
            return f(r)
        return g

    def valued(c, s):
        def g():
            r = random.Random(s)
            d = f(r)
            for k, v in d.items():
                if k.startswith("*") and "[#]" in k and (v is sample16 or name.startswith("encode::")):
                    d[k] = lambda ev, h, ix, v=v: ((c, c - 1, c + 1, -c, 1 - c, -1 - c)[(h >> 16) % 6] & 0xffff if h % 3 == 0 else v(ev, h >> 3, ix))
            return d
        return g
    n = 0
    for rnd in range(3):
        for c in cs:
            for j in range(3):
                n += 1
                if c < 1 << 16:
                    out.append((c, valued(c, seed * 7919 + n)))
            for at, area in ((1, False), (2, False), (1, True), (3, False)) + (((99, False),) * 2 if name in SLOTS else ()):
                n += 1
                out.append((c, sized(c, at, area, (1, 3, -1)[rnd] if rnd else (2, 1, 5)[n % 3], seed * 7919 + n)))
    return out


def inv(name):
    f = PRE.get(name)
    return (lambda ev: True) if f is None else (lambda ev: f(Get(ev)))


def view(name):
    """(projection of the outcome, further invariant), or None"""
    v = VIEW.get(name)
    if v is None:
        return None
    f, g = v
    return f, lambda ev: inv(name)(ev) and (g is None or g(Get(ev)))


def for_fn(name):
    f = BY_NAME.get(name)
    if f is None:
        return None
    return lambda interp, seed: f(random.Random(seed))


# ---------------------------------------------------------------- invariants of private state
#
# A method of a type with private fields is judged on states the type's own functions can produce. Each predicate is an
# invariant of the reference's representation, established by its constructor and kept by its methods.

class Get:
    """values a sample gives to inputs, by name"""

    def __init__(self, ev):
        self.ev = ev

    def tok(self, path):
        p = path.split(".")
        v = self.ev.evb(mk("sym", (p[0],), None))
        for k in p[1:]:
            v = self.ev.child(v, ("f", int(k)))
        return v

    def n(self, path, w=64):
        return self.ev.typed(self.tok(path), w)

    def arg(self, name, w=64):
        return self.ev.ev(mk("sym", (name,), w))

    def len(self, path):
        return self.ev.ev(mk("ln", (self.term(path),), 64))

    def term(self, path):
        p = path.split(".")
        t = mk("sym", (p[0],), None)
        for k in p[1:]:
            t = T.sel(t, (("f", int(k)),), None)
        return t


def pre_put(g):
    bits, x = g.arg("a2", 32), g.arg("a1", 32)
    return g.n("*a0.2", 32) <= 31 and bits <= 31 and x >> bits == 0


def pre_state(g):
    return g.n("*a0.2", 32) <= 31


def pre_get(g):
    return g.n("*a0.2", 32) <= 31 and 1 <= g.arg("a1", 32) <= 32


def pre_zeros(g):
    return g.n("*a0.2", 32) <= 31 and g.arg("a1", 32) >= 1


def pre_chunks(g):
    """chunk_size step x y channel width height channels"""
    c, x, y, w, h = (g.n("*a0.1.%d" % k) for k in (0, 2, 3, 5, 6))
    return (1 <= c < 1 << 32 and 1 <= w < 1 << 31 and 1 <= h < 1 << 31 and (x < w) and (y < h) and x % c == 0 and y % c == 0
            and g.n("*a0.1.7") < 1 << 32 and g.n("*a0.1.4") < 1 << 32)


def pre_overlap(g):
    return g.len("*a0.0") >= 1 or g.len("*a0.1") == 0


def pre_double(g):
    p, l, m, r, rest = (g.len("*a0.%d" % k) for k in range(5))
    if l == 0:
        return p == m == r == rest == 0
    return p in (0, l) and m <= l and r <= l and (r == 0 or m == l or m == 0) and (rest == 0 or m == l and r == l)


# What of a private representation later calls can tell apart. Used when two methods leave different fields behind: the
# writer's cache above index_bits, the reader's cache when it is not filled, and any field after an error do not count.

def is_ok(v):
    if v.op == "dd":
        return T.lift(is_ok, v, force=True)
    if v.op == "agg" and isinstance(v.args[0], tuple):
        return T.TRUE if v.args[0][2] == 0 else T.FALSE
    return T.eq0(mk("discr", (v, ("0", "1"), "Result"), 64))


def only(c, v):
    return T.ite(c, v, T.C(v.ty, 0) if isinstance(v.ty, int) and v.ty else T.FALSE)


def view_writer(o):
    o = dict(o)
    m = o.pop("memory a0", None)
    if m is None:
        return o
    ok = is_ok(o["return value"])
    ix = T.sel(m, (("f", 2),), 32)
    mask = T.sub(T.pow2k(ix, 32), T.C(32, 1))
    o["the writer's position"] = only(ok, ix)
    o["the writer's pending bits"] = only(ok, T.binop("and", mask, T.sel(m, (("f", 1),), 32)))
    return o


def view_reader(o):
    o = dict(o)
    m = o.pop("memory a0", None)
    if m is None:
        return o
    ok = is_ok(o["return value"])
    full = T.truth(T.sel(m, (("f", 3),), "bool"))
    o["the reader's position"] = only(ok, T.sel(m, (("f", 2),), 32))
    o["whether the reader holds a word"] = T.ite(ok, full, T.FALSE)
    o["the reader's word"] = only(T.And(ok, full), T.sel(m, (("f", 1),), 32))
    return o


def pre_clean(g):
    i = g.n("*a0.2", 32)
    return i <= 31 and g.n("*a0.1", 32) >> i == 0


_BW, _BR = "<bits::BitsIOWriter as bits::BitsWriter>::", "<bits::BitsIOReader as bits::BitsReader>::"
VIEW = {
    _BW + "put_bits": (view_writer, pre_clean), _BW + "flush_write_word": (view_writer, pre_clean),
    _BR + "get_bits": (view_reader, None), _BR + "get_zeros": (view_reader, None),
}


def pot(limit, arg):
    return lambda g: g.arg(arg, 32) <= limit


def moments(arg, coder=None):
    """what get_context and the fast context can hold: means of at most 2^15 and 2^24, times 16"""
    def f(g):
        return g.n(arg + ".0", 32) < 1 << 20 and g.n(arg + ".1", 32) <= 1 << 28 and (coder is None or g.arg(coder, 32) <= 4)
    return f


PRE = {
    "encode::unsigned_code": pot(31, "a2"), "encode::signed_code": pot(31, "a2"), "encode::interleaved_code": pot(31, "a2"),
    "encode::unsigned_decode": pot(108, "a1"), "encode::signed_decode": pot(108, "a1"), "encode::interleaved_decode": pot(108, "a1"),
    "encode::encode_s": moments("a3"), "encode::get_s": moments("a2"),
    "encode::get_run_coder_fast": moments("a0", "a2"), "encode::get_run_coder": moments("a0", "a3"),
    "<bits::BitsIOWriter as bits::BitsWriter>::put_bits": pre_put, "<bits::BitsIOWriter as bits::BitsWriter>::flush_write_word": pre_state,
    "<bits::BitsIOReader as bits::BitsReader>::get_bits": pre_get, "<bits::BitsIOReader as bits::BitsReader>::get_zeros": pre_zeros,
    "<processing::image::ImageChunkIteratorMut as std::iter::Iterator>::next": pre_chunks,
    "<processing::overlapping_chunks_iterator::OverlappingChunksIterator as std::iter::Iterator>::next": pre_overlap,
    "<processing::double_overlapping_chunks_iterator::DoubleOverlappingChunksIterator as std::iter::Iterator>::next": pre_double,
}


def draw_pot(limit, arg, x=None):
    def f(r):
        d = {arg: r.choice([0, 1, 2, 3, 4, 16, 19, 20, 21, 23, 24, 25, 31, 100, 103, 104, 105, 107, 108, r.randint(0, 24), r.randint(0, 24)])}
        d[arg] = min(d[arg], limit)
        if x:
            v = r.getrandbits(r.randint(0, 32))
            v = r.choice([v, min(r.choice([0, 1, 11, 12, 13, 24]) << min(d[arg], 31), (1 << 32) - 1), v])
            d[x] = v
        return d
    return f


def draw_moments(arg, s=None, coder=None, sq=None):
    def f(r):
        m0 = r.choice([0, 1, 2, 3, 4, 7, 8, 9, r.randint(0, 40), r.getrandbits(r.randint(1, 19))])
        m1 = r.choice([0, 1, 2, 3, 4, r.randint(0, 40), r.getrandbits(r.randint(1, 28))])
        if r.random() < .6:
            # near one of the coder's thresholds
            a, b, c = r.choice([(2, 250, 1), (2, 100, 1), (2, 950, 1), (3, 3000, 1), (5, 400, 1), (3, 12000, 1), (5, 3000, 1), (4, 44000, 1),
                                (6, 12000, 1), (3, 48, 2), (5, 32, 2)])
            m1 = max(0, (m0 * m0 * c - b) // a + r.randint(-2, 2))
            m1 = min(m1, 1 << 28)
        d = {arg + ".0": m0, arg + ".1": m1}
        if sq:
            d[sq] = r.choice([m0 * m0 & 0xffffffff, m0 * m0 & 0xffffffff, r.getrandbits(32)])
        if s:
            d[s] = r.choice([0, 0, 1, 0xffffffff, r.getrandbits(15)])
        if coder:
            d[coder] = r.choice([0, 0, 1, 2, 3, 4])
        return d
    return f


BY_NAME.update({
    "encode::unsigned_code": draw_pot(31, "a2", "a0"), "encode::signed_code": draw_pot(31, "a2", "a0"), "encode::interleaved_code": draw_pot(31, "a2", "a0"),
    "encode::unsigned_decode": draw_pot(108, "a1"), "encode::signed_decode": draw_pot(108, "a1"), "encode::interleaved_decode": draw_pot(108, "a1"),
    "encode::encode_s": draw_moments("a3", "a1", None, "a2"), "encode::get_s": draw_moments("a2", None, None, "a1"),
    "encode::get_run_coder_fast": draw_moments("a0", "a1", "a2"), "encode::get_run_coder": draw_moments("a0", "a1", "a3", "a4"),
})


def image_next(r):
    w, h, c = dim(r, 1, 9), dim(r, 1, 9), dim(r, 1, 4)
    n = dim(r, 1, 3)
    d = {"*a0.1.0": c, "*a0.1.1": r.choice([1, 2, 4]), "*a0.1.2": r.randrange((w + c - 1) // c) * c, "*a0.1.3": r.randrange((h + c - 1) // c) * c,
         "*a0.1.4": r.choice([0, 1, n - 1, n - 1, n, n + 1]), "*a0.1.5": w, "*a0.1.6": h, "*a0.1.7": n, "len:*a0.0": w * h * n}
    return d


def ovl_next(r):
    s = dim(r, 1, 6)
    return {"len:*a0.0": s, "len:*a0.1": r.choice([0, s, 2 * s, 2 * s - 1, 2 * s + 1, s + 1, s - 1, 3 * s, r.randint(0, 20)])}


def dov_next(r):
    s = dim(r, 1, 6)
    k = r.random()
    if k < .1:
        ls = (0, 0, 0, 0, 0)
    elif k < .6:
        ls = (r.choice([0, s]), s, s, s, r.choice([0, s, 2 * s, 2 * s - 1, 2 * s + 1, s + 1, s - 1, 3 * s, r.randint(0, 20)]))
    elif k < .8:
        ls = (r.choice([0, s]), s, s, r.randint(0, s), 0)
    else:
        ls = (r.choice([0, s]), s, r.randint(0, s), 0, 0)
    return {"len:*a0.%d" % i: n for i, n in enumerate(ls)}


BY_NAME.update({
    "<processing::image::ImageChunkIteratorMut as std::iter::Iterator>::next": image_next,
    "<processing::overlapping_chunks_iterator::OverlappingChunksIterator as std::iter::Iterator>::next": ovl_next,
    "<processing::double_overlapping_chunks_iterator::DoubleOverlappingChunksIterator as std::iter::Iterator>::next": dov_next,
})


# ---------------------------------------------------------------- call histories

def hist_writer(ops):
    def f(r):
        d = {}
        for i, o in enumerate(ops, 1):
            if o == "p":
                n = r.choice([0, 1, 12, 24, 31, r.randint(0, 31), r.randint(0, 31), r.randint(8, 24)])
                d["s%d.1" % i], d["s%d.2" % i] = r.choice([r.getrandbits(n), r.getrandbits(n), (1 << n) - 1, 0]), n
        return d

    def pre(g):
        return all(o != "p" or g.arg("s%d.2" % i, 32) <= 31 and g.arg("s%d.1" % i, 32) >> g.arg("s%d.2" % i, 32) == 0 for i, o in enumerate(ops, 1))
    return f, pre


def hist_reader(ops):
    def f(r):
        d = {}
        for i, o in enumerate(ops, 1):
            d["s%d.1" % i] = r.choice([1, 12, 31, 32, r.randint(1, 32), r.randint(1, 12)]) if o == "b" else r.choice([1, 12, 12, 40, 70, r.randint(1, 64)])
        z = r.random() < .5
        for j in range(12):
            for i in range(4):
                d["io.read@%d:b/%d" % (j, i)] = lambda ev, h, ix: 0 if z and h & 3 else h >> 8 & 255
        if r.random() < .8:
            d["io.read:ok"] = 1
        return d

    def pre(g):
        return all(o == "f" or 1 <= g.arg("s%d.1" % i, 32) and (o == "z" or g.arg("s%d.1" % i, 32) <= 32) for i, o in enumerate(ops, 1))
    return f, pre


def hist_chunks(r):
    s = dim(r, 1, 5)
    return {"a1": s, "len:a0": r.choice([r.randint(0, 7 * s), s * r.randint(0, 7), s * r.randint(0, 7) + 1])}


def hist_var(r):
    return {"len:a0": dim(r, 0, 20), "len:a1": r.choice([0, 2, 3, 4, 5, 6]), "*a1[#]": lambda ev, h, ix: (0, 1, 2, 3, 4, 5, 8, 30)[h % 8]}


def hist_image(r):
    w, h, n = dim(r, 1, 9), dim(r, 1, 9), dim(r, 1, 3)
    return {"a1.0": w, "a1.1": h, "a2": n, "len:a0": r.choice([w * h * n, w * h * n, w * h * n + 3]), "s1.1": r.choice([1, 2, 4, 8, 16, 3]), "s1.2": r.choice([1, 2, 4])}


import history as _h
for _n, _s in _h.HIST.items():
    _o = _n[_n.find("(") + 1:-1]
    if _n.startswith("BitsIO"):
        _f, _p = (hist_writer if "Writer" in _n else hist_reader)(_o)
        BY_NAME["history:" + _n], PRE["history:" + _n] = _f, _p
    else:
        BY_NAME["history:" + _n] = hist_var if _n.startswith("Var") else hist_image if _n.startswith("Image") else hist_chunks
PRE["history:OverlappingChunksIterator x5"] = PRE["history:DoubleOverlappingChunksIterator x5"] = lambda g: 1 <= g.arg("a1") < 1 << 40
PRE["history:Image::into_chunks_mut x5"] = lambda g: (1 <= g.arg("a1.0") < 1 << 20 and 1 <= g.arg("a1.1") < 1 << 20 and 1 <= g.arg("s1.1") < 1 << 20
                                                      and g.arg("a2") < 1 << 10)
