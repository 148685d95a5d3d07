"""Which functions carry which property (value-graph obligations), per property."""

B = "bits::"
BW = "<bits::BitsIOWriter as bits::BitsWriter>::"
BR = "<bits::BitsIOReader as bits::BitsReader>::"
CT = "color_transform::"
CP = CT + "ColorTransformProgram::"
CB = CT + "ChannelTransformBuilder::"
H = "header::Header::"
L = "lifting::"
PR = "processing::"
DOI = PR + "double_overlapping_chunks_iterator::DoubleOverlappingChunksIterator"
OVI = PR + "overlapping_chunks_iterator::OverlappingChunksIterator"
VCI = PR + "variable_chunks_iterator::VariableChunksIterator"
IMG = PR + "image::"
IT = " as std::iter::Iterator>::next"

WRITER = [B + "BitsIOWriter::new", BW + "put_bits", BW + "flush_write_word"]
READER = [B + "BitsIOReader::new", B + "BitsIOReader::next_u32", BR + "get_bits", BR + "get_zeros", BR + "flush_read_word"]
BITS = WRITER + READER
CODES_E = ["encode::unsigned_code", "encode::signed_code", "encode::interleaved_code"]
CODES_D = ["encode::unsigned_decode", "encode::signed_decode", "encode::interleaved_decode"]
CODES = CODES_E + CODES_D
CHOICE = ["encode::encode_s", "encode::get_s", "encode::get_run_coder_fast", "encode::get_run_coder"]
BLOCK = ["encode::encode", "encode::decode"]
PIX = [IMG + "ImageChunkMut::get_unchecked", IMG + "ImageChunkMut::get_unchecked_mut",
       "<" + IMG + "ImageChunkMut as std::ops::Index>::index", "<" + IMG + "ImageChunkMut as std::ops::IndexMut>::index_mut"]
IMAGE = PIX + [IMG + "Image::from_slice", IMG + "Image::into_chunks_mut", "<" + IMG + "ImageChunkIteratorMut" + IT]
LIN = [L + "linear::lift_linear", L + "linear::unlift_linear"]
CUB = [L + "cubic::lift_cubic", L + "cubic::unlift_cubic", L + "cubic::cubic"]
OVL = [OVI + "::from_slice", "<" + OVI + IT]
DOV = [DOI + "::from_slice", "<" + DOI + IT]
VAR = [VCI + "::new", "<" + VCI + IT]
QUANT = ["quant::quantize", "quant::dequantize"]
STAGE = ["compress::lift_and_quantize", "compress::unlift_and_dequantize"]
CIMG, DIMG = "compress::compress_image_data", "compress::decompress_image_data"
CAUX, DAUX = "compress::compress_aux_data", "compress::decompress_aux_data"
SIZES = [H + x for x in ("get_decompress_buffer_size", "get_boost", "get_downsampled_width", "get_downsampled_height",
                         "get_downsampled_channel_size", "get_channel_size", "get_chroma_quality", "get_image_size",
                         "get_downsampled_image_size")]
HDR = [H + "encode", H + "decode"]
BUILD = ["header::builder::HeaderBuilder::build"]
PROGS = [CP + x for x in ("new", "yuv444_to_yuv444", "rgb_to_yuv", "bgr_to_a710", "rgb_to_a710", "add_channel_transform",
                          "is_channel_has_transform", "iter")]
CTB = [CB + x for x in ("with_dest_channel", "set_chroma", "add_channel_factor", "set_denominator", "build")]
PSER = [CP + "encode", CP + "decode"]
FWD = [CP + "transform_and_to_planar", CP + "transform"]
INV = [CP + "detransform_and_to_interleaved", CP + "detransform"]
CONV = [CT + "interleaved_to_planar", CT + "planar_to_interleaved"]
ERR = ["<errors::CompressError as std::convert::From>::from", "<errors::DecompressError as std::convert::From>::from",
       "<errors::HeaderErr as std::convert::From>::from"]
SIMPLE = ["compress_simple", "decompress_simple"]

ALL = (BITS + CODES + CHOICE + ["encode::get_context"] + BLOCK + IMAGE + LIN + CUB + OVL + DOV + VAR + QUANT + STAGE
       + [CIMG, DIMG, CAUX, DAUX] + SIZES + HDR + BUILD + PROGS + CTB + PSER + FWD + INV + CONV + ERR + SIMPLE)

OBLIGATIONS = {
    "C01": CODES + BITS,
    "C02": BITS,
    "C03": BLOCK + CHOICE + ["encode::get_context"] + CODES + PIX + BITS,
    "C04": ["encode::get_context"] + BLOCK + PIX,
    "C05": LIN + OVL + STAGE,
    "C06": CUB + DOV + STAGE,
    "C07": QUANT + STAGE + [CIMG, DIMG, H + "get_chroma_quality", H + "get_boost"],
    "C08": FWD + INV + PROGS + CTB + [H + "get_boost", H + "get_channel_size"],
    "C09": PSER + CTB + PROGS + CODES + BITS + SIMPLE,
    "C10": HDR + BUILD,
    "C11": BUILD + HDR + SIZES + ERR,
    "C12": [H + "decode", CP + "decode", DIMG, DAUX, "decompress_simple", "encode::decode", "encode::get_s",
            "encode::get_run_coder_fast", "encode::get_run_coder", "encode::get_context"] + CODES_D + READER + VAR + BUILD + SIZES
           + INV + IMAGE + STAGE + ["quant::dequantize", L + "linear::unlift_linear", L + "cubic::unlift_cubic"],
    "C13": LIN + CUB[:2] + OVL + DOV + QUANT + BLOCK + ["encode::get_context"] + IMAGE + STAGE + [CIMG, DIMG, CAUX, DAUX] + SIZES
           + BUILD + [H + "decode"] + SIMPLE,
    "C14": [CIMG, DIMG, CAUX, DAUX] + STAGE + LIN + CUB[:2] + QUANT + SIMPLE + OVL + DOV,
    "C15": [CIMG, CAUX, DIMG, DAUX] + ERR + VAR + IMAGE + WRITER + SIMPLE + [H + "decode"],
    "C16": [DIMG, DAUX, "decompress_simple"] + VAR + IMAGE + READER,
    "C17": ALL,
    "C18": [DIMG, DAUX, "compress::unlift_and_dequantize", "decompress_simple", "quant::dequantize"] + SIZES + IMAGE + INV
           + [L + "linear::unlift_linear", L + "cubic::unlift_cubic"],
    "C19": CONV + FWD + INV + [H + "get_boost", H + "get_channel_size"] + SIMPLE,
    "C20": IMAGE + OVL + DOV + VAR + STAGE + [CIMG, DIMG],
    "C21": [H + "decode", CP + "decode", DIMG, DAUX, "decompress_simple", "encode::decode"] + CODES_D + READER + VAR + IMAGE,
    "C22": ALL,
    "C23": [DIMG, DAUX, "decompress_simple"],
}

# private functions: a refactoring may rename or dissolve them; their callers' obligations then cover them
OPTIONAL = {"bits::BitsIOReader::next_u32", "encode::encode_s", "encode::get_s", "encode::get_run_coder_fast",
            "encode::get_run_coder", "encode::get_context", "compress::lift_and_quantize", "compress::unlift_and_dequantize",
            CIMG, L + "cubic::cubic"}

# obligations on memory accesses and panics: whatever the reference accepts, /repo processes without an out-of-range
# access or panic; for ENTRY functions additionally nothing at all makes an unchecked access go out of range
SAFETY = {
    "C04": ["encode::get_context", "encode::encode", "encode::decode"],
    "C12": OBLIGATIONS["C12"],
    "C13": OBLIGATIONS["C13"],
    "C14": ["encode::get_context", "encode::encode", "encode::decode"],
    "C15": [CIMG, CAUX, DIMG],
    "C21": CODES_D + READER + [H + "decode", CP + "decode"],
}
ENTRY = set(LIN + CUB[:2] + QUANT + [CAUX, DAUX, CIMG, DIMG] + STAGE + SIMPLE + OVL + DOV + FWD + INV + CONV)
