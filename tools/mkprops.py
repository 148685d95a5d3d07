import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=state or [],observe_at=obs or [],hook_needed=None)))
p("C01","Integer codes are prefix-free, follow the format and decode to what was coded",
 "Every 32-bit magnitude (and every signed value whose magnitude the format admits) written with the unsigned, signed or interleaved Golomb-Rice code at any Rice parameter in use is read back as the same value, consuming exactly the bits that were written. The code is the limited-length one of the format: quotients below 12 in unary, otherwise a 12-zero escape and the remainder recoded with the parameter raised by 4 up to 24, signs coded after the magnitude (signed) or folded into the parity (interleaved). Decoding any bit stream whatsoever terminates with a value or an I/O error.",
 ["inputs"],"every value, every Rice parameter, every bit stream",
 "The tests code a few dozen values at a few parameters; escapes, chained escapes, the parameter cap and 2^31-sized values are not sampled exhaustively and cannot be.",
 ["src/encode/mod.rs","src/bits/mod.rs"],[("limited-length Golomb-Rice coder and decoder","src/encode/mod.rs: unsigned_code/unsigned_decode, signed_*, interleaved_*")],None,["bits handed to the bit writer","values returned by the decoders"])
p("C02","Bit streams read back exactly the bits that were written",
 "For every sequence of bit writes followed by a flush, the output is the concatenation of the written bits, most significant first, packed into little-endian 32-bit words and zero padded to a word boundary. Reading it back by fields or by zero runs in any mixture returns the same bits, counts exactly the zeros before the terminating one (which is consumed) up to the requested maximum, and flushing the reader resumes at the next word. An error of the underlying stream is returned, never turned into data.",
 ["inputs","histories"],"every sequence of writes/reads with widths 0..32, every alignment of the cache, every zero-run limit",
 "Word-boundary alignment of the cache depends on the whole history of calls; the tests check a handful of sequences.",
 ["src/bits/mod.rs"],[("write cache / read cache with bit index","src/bits/mod.rs: BitsIOWriter, BitsIOReader")],[dict(name="cache and bit index",meaning="bits not yet emitted / not yet consumed",where="src/bits/mod.rs")])
p("C03","The block decoder mirrors the block encoder for every coefficient block",
 "For every block of wavelet coefficients, block position, step, quality, chroma flag and encoder (turbo, fast, contextual), decoding the bits produced for the block restores exactly the coefficients the block owns (and its DC value when it carries one) and writes nothing else. The decoder makes the same choice of code, Rice parameter, run coding and adaptive state after every coefficient as the encoder did.",
 ["inputs","histories"],"all coefficient values, block geometries, encoders, qualities, adaptive-coder histories",
 "The adaptive state depends on the whole coefficient history; tests cover a few fixed blocks and images.",
 ["src/encode/mod.rs"],[("encode/decode pair with shared code selection and run-length adaptation","src/encode/mod.rs: encode, decode, encode_s, get_s, get_run_coder*")],[dict(name="context, run, run_coder",meaning="adaptive coder state",where="src/encode/mod.rs")])
p("C04","The coefficient context is causal and identical on both sides",
 "The context used to select a code for a coefficient is a fixed weighted mean of magnitudes and of clamped squared magnitudes over the format's neighbourhood (parent, upper/left siblings, and neighbours at two and four steps, each only when it exists). Every sample it reads lies inside the same channel and block and has already been decoded at that point, so encoder and decoder always compute the same context.",
 ["inputs"],"all block positions, sizes, steps and coefficient positions, all coefficient values",
 "Edge conditions (right column, last row, odd block sizes, small steps) multiply; a test samples a few of them and a symmetric error or a read of a not-yet-decoded sample shows only for particular geometry and data.",
 ["src/encode/mod.rs"],[("neighbourhood context","src/encode/mod.rs: get_context, add_context")])
p("C05","The linear wavelet is the format's lifting scheme and inverts exactly",
 "For every rectangular image, the forward linear (5/3) transform applies the format's predict and update steps at every level, in every row and column, with its boundary rule, and the inverse transform undoes them exactly, for every sample value under wrapping 16-bit arithmetic. No sample outside the intended lattice of a level is modified.",
 ["inputs"],"all image shapes (including single rows and columns, odd sizes) and all sample values",
 "Tests round-trip a few small images; every width/height parity, level count and overflowing value is out of their reach.",
 ["src/lifting/mod.rs","src/lifting/linear.rs"],[("lifting steps","src/lifting/linear.rs"),("level driver","src/lifting/mod.rs: lift, unlift")])
p("C06","The cubic wavelet is the format's lifting scheme and inverts exactly",
 "For every rectangular image, the forward cubic transform applies the format's predict and update steps (cubic interpolation clamped to the two nearest neighbours, rounded symmetrically) at every level, row and column with its boundary rule, and the inverse transform undoes them exactly, for every sample value under wrapping 16-bit arithmetic. No sample outside the intended lattice of a level is modified.",
 ["inputs"],"all image shapes and all sample values",
 "As for the linear wavelet; additionally the clamped interpolation has sign- and tie-dependent cases tests sample thinly.",
 ["src/lifting/mod.rs","src/lifting/cubic.rs"],[("cubic lifting steps and interpolation","src/lifting/cubic.rs"),("level driver","src/lifting/mod.rs")])
p("C07","Quantization and dequantization follow the format at every level",
 "At every wavelet level and for every sample, quantization scales exactly the coefficients belonging to that level by quality over maximum quality, truncating toward zero, and dequantization scales the same coefficients back by the inverse ratio rounded away from zero by half a step; quality doubles per level up to the maximum, at which both are the identity (lossless). Zero stays zero, signs are preserved, and no coefficient of another level is changed.",
 ["inputs"],"all image shapes, qualities, bounds, sample values",
 "Tests quantize one small image at one or two qualities.",
 ["src/quant/mod.rs"],[("level loop, lattice selection and scaling","src/quant/mod.rs")])
p("C08","Applying a colour transform and undoing it restores every sample",
 "For every image, layer and channel count and every colour program in which each channel is transformed at most once, undoing the program after applying it restores all channel samples exactly under wrapping 16-bit arithmetic at maximum quality; applying a program computes for each transformed channel (sum of factor x source, transformed source if already transformed) divided by the denominator plus the boosted sample, in program order, and undoing runs in reverse order. The predefined RGB/BGR/YUV programs are the documented ones.",
 ["inputs","programs"],"all colour programs, sample values, layer/channel counts",
 "The programs are user-defined; tests run the three or four built-in ones on tiny images.",
 ["src/color_transform/mod.rs"],[("transform/detransform loops","src/color_transform/mod.rs: transform_base, detransform_base")])
p("C09","Serialized colour programs decode to the same program and chroma flags",
 "Decoding the serialized form of any colour program yields a program with the same transforms in the same order (destination, factors, denominator, chroma flag), sets the same chroma flags the encoder reported, and consumes exactly the words that were written. Any byte stream that names a channel outside the image, or a denominator that is not a positive 16-bit value, is rejected with an error.",
 ["inputs","programs"],"all colour programs and all byte streams",
 "Tests serialize a few programs; nesting, ordering and malformed streams are unbounded.",
 ["src/color_transform/mod.rs"],[("program serializer and parser","src/color_transform/mod.rs: encode, decode")])
p("C10","Headers round-trip through their 32-byte little-endian form",
 "Encoding a header the builder accepts and decoding the result yields an equal header, field for field. The encoding is the format's: magic, version, width, height, channels-1, layers-1, the packed block-size/chroma-scale/quality/sign word, bit depth-1, intent, encoder, quantization, filter and metadata words, all little endian.",
 ["inputs"],"all headers that can be built, all 32-byte strings",
 "Field packing has 10+ independent ranges; the tests encode a few headers.",
 ["src/header/mod.rs","src/header/builder.rs"],[("header reader and writer","src/header/mod.rs: Header::decode, Header::encode")])
p("C11","Headers are accepted exactly when they are representable and consistent",
 "Building or decoding a header succeeds exactly when its magic is right, width and height lie strictly between 0 and 2^30, layers, channels and chroma scale are at least 1, quality is 1..1024, block size 2..30, metadata size is a multiple of 4, enumerated fields have known codes, bit depth is at most 8 and unsigned, and the image size does not overflow; everything else yields an error. The sizes, boost and chroma quality derived from an accepted header are the documented functions of its fields.",
 ["inputs"],"all field values, all header byte strings",
 "Boundary values of each field and their combinations are not enumerated by the tests.",
 ["src/header/mod.rs","src/header/builder.rs"],[("range checks and checked arithmetic","src/header/builder.rs: build, check_range"),("derived quantities","src/header/mod.rs: get_*")])
p("C12","Untrusted compressed input can fail only with an error value",
 "Decoding a header, a colour program or image data from any byte string whatsoever returns a value or an error; no byte string makes the decoder panic (index out of range, unwrap of an error, division by zero, assertion, invalid slice) in a release build. Header fields, channel numbers, denominators and block lengths read from the input are validated before they index, size or divide anything.",
 ["inputs"],"all byte strings given to the decoding entry points, for all headers that the header decoder accepts",
 "Malformed input space is unbounded; tests contain a handful of truncated or corrupted streams.",
 ["src/header/mod.rs","src/color_transform/mod.rs","src/compress/mod.rs","src/encode/mod.rs","src/bits/mod.rs"],[("validation before use on decoding paths","src/compress/mod.rs: decompress_image_data; src/color_transform/mod.rs: decode; src/header/mod.rs: decode")])
p("C13","Unchecked memory accesses stay inside the caller's buffers",
 "No sequence of calls of the safe public compression and decompression API reads or writes memory outside the buffers passed in: every unchecked access in the wavelet, context and block code is preceded by the checks and loop bounds that keep its index inside the row, block or channel. Unchecked access exists only in the wavelet kernels, the block coder and the image-chunk type, and buffer sizes are validated against the header before any of it runs.",
 ["inputs","configurations"],"all inputs of the safe API, all image shapes, both feature configurations",
 "Out-of-bounds accesses need particular shapes (odd sizes, ragged or short buffers) and may go unnoticed even when they occur in a test.",
 ["src/lifting/linear.rs","src/lifting/cubic.rs","src/lifting/mod.rs","src/encode/mod.rs","src/processing/image.rs","src/compress/mod.rs"],[("size validation and loop bounds guarding unchecked indexing","src/compress/mod.rs; src/processing/image.rs: from_slice; src/lifting/*.rs")])
p("C14","Results do not depend on threads, scheduling or feature configuration",
 "For every input, compressing and decompressing produce the same bytes, the same samples and the same success or failure whatever the number of threads, the completion order of parallel work items and the enabled multithreading features. Work items run in parallel share no mutable state, and results are put back in item order before use.",
 ["schedules","configurations"],"all schedules of parallel work items, all feature sets",
 "Tests run whatever schedule happens; ordering bugs need a particular interleaving and races may stay silent.",
 ["src/processing/maybe_parallel.rs","src/compress/mod.rs","src/lifting/mod.rs","src/quant/mod.rs"],[("indexed results of unordered parallel iteration","src/compress/mod.rs"),("disjoint work items","src/processing")])
p("C15","Compression output is correctly framed and confined to the buffer",
 "Compressed image data consists, for each level from the coarsest step down to 1, of the word count of every block (little-endian 32 bits, channel-major block order) followed by the blocks' bits back to back, and the returned size is exactly the number of bytes used. When the output does not fit in the given buffer, whatever its size, compression returns an overflow or I/O error and never panics or writes elsewhere; input that is too short for the header is reported as malformed.",
 ["inputs"],"all images, headers, buffer sizes",
 "Every buffer size near every internal boundary (size tables, per-block share, zero share) is beyond sampling.",
 ["src/compress/mod.rs"],[("level loop, block table and compaction","src/compress/mod.rs: compress_image_data, compress_aux_data")])
p("C16","Truncated data decodes progressively and reports the next useful length",
 "Decompressing a prefix of compressed image data decodes exactly the levels and blocks completely contained in it, each block from precisely the bytes its table entry assigns to it, and leaves every other coefficient as it was. The result is 0 when the requested resolution is complete, otherwise the length at which more becomes decodable: the end of the truncated level plus, unless it is the last, the size estimate of the next level's block table (the prefix length plus 1024 before the first table). Data that ends inside a level before the last one is reported as underflow once the next level is needed.",
 ["inputs","fault_sequences"],"all truncation points, all block tables, all requested downsampling levels",
 "A truncation can happen at any byte of any stream; tests cut a few streams at a few points.",
 ["src/compress/mod.rs","src/processing/variable_chunks_iterator.rs"],[("block table reading, truncation bookkeeping","src/compress/mod.rs: decompress_image_data"),("block splitting","src/processing/variable_chunks_iterator.rs")])
p("C17","No error is swallowed",
 "Whenever the underlying reader or writer, a block encoder or decoder, the header parser or the colour-program parser reports an error, the public operation in progress returns an error; it never continues with made-up data or reports success. An error is reported as the documented kind (I/O, overflow, underflow, malformed, mismatch, wrong value).",
 ["inputs","fault_sequences"],"every fallible operation on every path, every fault of the underlying streams",
 "Injecting a fault at every I/O call of every path is not done by the tests.",
 ["src/bits/mod.rs","src/encode/mod.rs","src/compress/mod.rs","src/color_transform/mod.rs","src/header/mod.rs","src/lib.rs","src/errors.rs"],[("propagation with ? and explicit mapping","all fallible functions")])
p("C18","Downsampled decoding uses the geometry of the reduced image throughout",
 "Decoding at downsampling level d reconstructs an image of ceil(width/2^d) x ceil(height/2^d) samples per channel from exactly the levels whose step is at least 2^d: buffer sizes, rows, blocks, dequantization (quality scaled by 2^d) and inverse wavelet all use that geometry, and finer levels are neither required nor read.",
 ["inputs","configurations"],"all image sizes, downsampling levels, block sizes",
 "Sizes not divisible by 2^d interact with block tiling and level count; tests use a few sizes and levels.",
 ["src/header/mod.rs","src/compress/mod.rs","src/lib.rs"],[("downsampled size functions","src/header/mod.rs"),("level loop bounded by the downsampling shift","src/compress/mod.rs")])
p("C19","Sample layout conversions are exact and clamp to the pixel range",
 "Converting between interleaved pixels and planar channels maps sample i of channel c of each layer to its own position and back for every layer, channel and skip-list combination, multiplying by the boost on the way in and dividing on the way out. Reconstructed samples are clamped to 0..255 before they become pixels, so overshoot never wraps around, and no position outside the image is written.",
 ["inputs"],"all images, channel/layer counts, skip lists, reconstructed values",
 "Multi-layer images and skipped channels in every combination, and overshoot of every size, are not sampled.",
 ["src/color_transform/mod.rs"],[("layout conversion and clamping","src/color_transform/mod.rs: convert_between_interleaved_and_planar, detransform*, cut_with_u8, get_layer")])
p("C20","Work partitions cover everything exactly once",
 "Splitting an image into blocks enumerates every channel's rectangle exactly once, in channel, row, column order, with blocks clipped to the image. Splitting rows for the wavelet yields exactly the odd rows of the level with their true neighbours (and none where there is none), each mutable row once; splitting compressed data by a table yields consecutive slices of the listed sizes, the last one clipped.",
 ["inputs"],"all image sizes, block sizes, steps, slice lengths, size tables",
 "The iterators are exercised by tests on a few lengths; every remainder case for every step is not.",
 ["src/processing/image.rs","src/processing/overlapping_chunks_iterator.rs","src/processing/double_overlapping_chunks_iterator.rs","src/processing/variable_chunks_iterator.rs"],[("iterator state machines","src/processing")])
p("C21","Decoding work and memory are bounded by header and input size",
 "For every input, the decoding operations terminate; recursion depth is bounded by a constant, every loop advances a counter towards its bound or consumes input, and no length read from the compressed data is used as an allocation size.",
 ["inputs"],"all byte strings, all accepted headers",
 "Non-termination or runaway recursion/allocation needs crafted input.",
 ["src/encode/mod.rs","src/bits/mod.rs","src/compress/mod.rs","src/color_transform/mod.rs"],[("recursion limit in the escape code, level loops, block table allocation","src/encode/mod.rs: unsigned_decode; src/compress/mod.rs")])
p("C22","Compressing then decompressing losslessly restores every image",
 "For every image and header at maximum quality with any filter, encoder, block size and invertible colour program (each channel transformed at most once, values within the format's range), decompressing the whole compressed stream at full resolution restores every pixel exactly. Compression writes the colour program and then the lifted, quantized coefficients; decompression undoes each stage in reverse order with the same parameters.",
 ["inputs","configurations"],"all images, sizes, channel/layer counts, filters, encoders, block sizes",
 "The product space of image content and parameters is unbounded; the functional tests round-trip a few images.",
 ["src/lib.rs","src/compress/mod.rs"],[("pipeline composition","src/lib.rs: compress_simple, decompress_simple; src/compress/mod.rs: lift_and_quantize, unlift_and_dequantize")])
p("C23","Probing in test mode has no side effect",
 "Decompressing in test mode reports the same next point of interest as a real decompression of the same well-formed data and modifies neither the output image nor the coefficient buffer.",
 ["inputs"],"all inputs, downsampling levels, truncation points",
 "Tests call test mode on a few streams and do not compare the untouched buffers for all of them.",
 ["src/lib.rs","src/compress/mod.rs"],[("test flag","src/lib.rs: decompress_simple; src/compress/mod.rs: decompress_aux_data, decompress_image_data")])
p("C24","Lossy reconstruction error is bounded by the quality setting",
 "At quality below maximum the difference between a decoded and the original sample stays within a bound determined by quality, filter and level count, and improves monotonically with quality on average.",
 ["inputs"],"all images and qualities","A numerical error bound over all images cannot be sampled.",
 ["src/quant/mod.rs","src/lifting"],[("quantization step against filter gain","src/quant/mod.rs")])
p("C25","Streams interoperate bit-exactly with the C++ reference implementation",
 "Any image compressed by this crate is decoded to the same samples by the reference C++ codec and vice versa.",
 ["inputs","configurations"],"all images and parameters","The functional test compares a few images with a built reference application.",
 ["reference_app/gfwx.hpp","src"],[("common format","reference_app/gfwx.hpp")])
p("C26","Multithreaded operation is faster and compression is effective",
 "Enabling multithreading shortens compression of large images and compressed output is smaller than the raw image for natural images.",
 ["inputs","configurations"],"natural images, machines","Timing and content statistics.",
 ["src/config.rs","benches"],[("thresholds","src/config.rs")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
