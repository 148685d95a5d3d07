"""Which functions are compared on their own and which stay uninterpreted at call sites."""

HARD = {
    "bits::BitsWriter::put_bits", "bits::BitsWriter::flush_write_word",
    "bits::BitsReader::get_bits", "bits::BitsReader::get_zeros", "bits::BitsReader::flush_read_word",
    "encode::unsigned_code", "encode::unsigned_decode",
    "encode::encode", "encode::decode",
    "lifting::linear::lift_linear", "lifting::linear::unlift_linear", "lifting::cubic::lift_cubic", "lifting::cubic::unlift_cubic",
    "quant::quantize", "quant::dequantize",
    "compress::compress_aux_data", "compress::decompress_aux_data", "compress::decompress_image_data",
    "header::Header::encode", "header::Header::decode",
    "color_transform::ColorTransformProgram::encode", "color_transform::ColorTransformProgram::decode",
    "color_transform::ColorTransformProgram::transform_and_to_planar", "color_transform::ColorTransformProgram::transform",
    "color_transform::ColorTransformProgram::detransform_and_to_interleaved", "color_transform::ColorTransformProgram::detransform",
}
# public, with obligations of their own: dissolved only when the two sides do not call the same ones
SOFTPUB = {"encode::interleaved_code", "encode::interleaved_decode", "encode::signed_code", "encode::signed_decode"}
SOFT = SOFTPUB | {
    "encode::get_context", "encode::encode_s", "encode::get_s", "encode::get_run_coder", "encode::get_run_coder_fast",
    "header::builder::HeaderBuilder::build",
    "lifting::cubic::cubic",
    "compress::compress_image_data", "compress::lift_and_quantize", "compress::unlift_and_dequantize",
}
