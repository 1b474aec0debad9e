"""The properties: one record each; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
TRUSTED = [
    "Kani 0.68 / CBMC 6.11 translation of MIR, and its SAT back ends",
    "rustc front end; harnesses see the crate built with --no-default-features (scalar SIMD descriptor)",
    "in Kani builds the Error enum is replaced by a compact one generated from error.rs on every run "
    "(variant identity kept, payloads dropped except OutOfBounds and struct-like variants); replays use the real one",
]
TAPE = ("callers of BitReader are checked against BitReader's contract (an abstract bit tape), which C01 proves for the real "
        "BitReader; the tape holds at most 128 bits")
INFO = {}


def prop(pid, title, statement, over, text, why, files, mech, functions, technique, note, assumptions=(), trusted=(), state=(), level="proof"):
    INFO[pid] = dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                     anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                              **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {})},
                     functions=functions, technique=technique, level_note=note, assumptions=list(assumptions), trusted=list(trusted),
                     level=level)


J = "jxl/src/"
KT = "contracts on the real functions, discharged by Kani/CBMC"

prop("C01", "Bit reader returns exactly the bits of its input",
     "Reading n bits returns exactly the next n bits of the input (least significant first) and advances by n; reads past the end are reported as "
     "errors, and bits consumed optimistically past the end are reported by the following error check; skipping, byte alignment and splitting keep "
     "every reader on the same bit positions. No operation panics or reads outside the input, from any reachable reader state.",
     ["inputs", "histories"], "every byte string, every reachable reader state and every sequence of operations (proved inductively over one operation)",
     "tests read a handful of buffers at a few offsets; refill, end-of-input and split behaviour depends on every combination of buffered bits, remaining bytes and request size",
     [J + "bit_reader.rs"], [("BitReader::{read,peek,consume,consume_optimistic,refill,refill_slow,skip_bits,split_at}", J + "bit_reader.rs")],
     ["BitReader::new", "read", "read_noinline", "peek", "consume", "consume_optimistic", "read_optimistic", "check_for_error", "skip_bits",
      "jump_to_byte_boundary", "split_at", "refill", "refill_slow", "total_bits_read", "total_bits_available"],
     KT + " (representation invariant; inductive over operations)",
     "every operation is proved against an abstract bit-stream view from an arbitrary state satisfying the representation invariant; up to 20 unread bytes (refill touches at most 8, so longer inputs behave alike except for skip_bits' arithmetic)",
     ["the contents of a reader after a failed skip are unspecified"])

prop("C02", "Header field codes decode to exactly the value and width they define",
     "Every primitive header field (boolean, fixed and selected-width integers, signed integers, 64-bit integers, half-floats, enumerations, names, "
     "arrays, optional and defaulted fields, extensions) decodes to exactly the value its code assigns, consumes exactly its own bits, and "
     "is rejected when it is cut short or not a defined value.",
     ["inputs"], "every bit string and every field configuration",
     "tests decode a few files; the selector/offset/width combinations, subnormal halves, longest 64-bit codes and truncations are not sampled",
     [J + "headers/encodings.rs", J + "util/float16.rs", "jxl_macros/src/lib.rs"],
     [("UnconditionalCoder / ConditionalCoder impls", J + "headers/encodings.rs"), ("f16::to_f32", J + "util/float16.rs")],
     ["bool/u32/i32/u64/f32/String/Vec/enum readers", "unpack_signed", "ConditionalCoder and DefaultedCoder impls", "f16::from_bits/to_f32"],
     KT, "complete over all bit strings for the scalar fields; strings (<=2 characters) and vectors (<=3 elements) are bounded stand-ins",
     [], [TAPE])

prop("C03", "Hybrid integers decode to exactly the value of their configuration",
     "A hybrid-integer configuration is read from its header fields or rejected exactly as defined for every alphabet size, and decoding a token with it "
     "returns the value made of the token's leading and trailing bits and the raw bits between them, consuming exactly those raw bits, for every valid configuration and token; "
     "values needing more bits than are left are reported, and values that do not fit are rejected.",
     ["inputs"], "every configuration for every alphabet size 2^0..2^15, every token and every following bit string",
     "files use a handful of configurations; split exponents, msb/lsb splits and large tokens are otherwise unvisited",
     [J + "entropy_coding/hybrid_uint.rs"], [("HybridUint::{decode,read}", J + "entropy_coding/hybrid_uint.rs")],
     ["HybridUint::decode", "HybridUint::read", "HybridUint::is_split_exponent_zero"], KT,
     "proved for all configurations and tokens against the arithmetic definition", [], [TAPE])

prop("C04", "ANS distributions and symbols decode as defined",
     "An ANS distribution is decoded from its header code to the defined frequencies summing to 4096 or rejected, whatever its form (single, two-symbol, flat, "
     "general with repeats); the alias table built from it maps every state to the symbol and offset such that each symbol owns exactly as many states as its frequency; "
     "and decoding a symbol yields that symbol and the defined successor state, refilling 16 bits exactly when it drops below 2^16.",
     ["inputs", "histories"], "every distribution header, every decoder state and every following bit string",
     "files exercise a few distributions; repeat codes, omitted positions, shifts and degenerate tables are not sampled",
     [J + "entropy_coding/ans.rs"], [("AnsHistogram::decode*, build_alias_map, read", J + "entropy_coding/ans.rs")],
     ["AnsHistogram::decode (single, two-symbol, flat)", "decode_prefix_and_u8", "AnsHistogram::read", "AnsReader::init/check"], KT,
     "header forms single/two/flat, state initialisation and decoding step proved; general headers and alias tables are bounded stand-ins (sampled on the real code)", [], [TAPE])

prop("C05", "Prefix codes are decoded, validated and rejected exactly as defined",
     "A prefix-code table is decoded from simple or code-length form to the canonical code it defines, and rejected when it is over- or under-full, repeats a symbol, "
     "names a symbol outside the alphabet or is cut short; decoding with it returns, for every bit string, the symbol whose canonical code word comes next and consumes exactly its bits.",
     ["inputs"], "every table header for every alphabet size, every following bit string",
     "tests decode a few tables; second-level table sizes, long codes, repeat-code accumulation and malformed tables are not sampled",
     [J + "entropy_coding/huffman.rs"], [("Table::decode*, build_table, HuffmanCodes::read", J + "entropy_coding/huffman.rs")],
     ["get_next_key", "next_table_bit_size", "Table::read", "Table::decode_simple_table (sampled)", "Table::decode (sampled)", "HuffmanCodes::decode (sampled)"], KT,
     "table lookup and key stepping proved; whole-table decoding is a bounded stand-in (sampled on the real code against an independent RFC 7932 decoder)", [], [TAPE])

prop("C06", "The symbol stream yields the defined values and checkpoints restore it exactly",
     "Reading an entropy-coded symbol yields the value defined by its context's code, integer configuration and pending LZ77 copy (with the special distance table, "
     "clamped distances and the 2^20-value window), a stream's final state is checked, and restoring a checkpoint makes the reader continue exactly as from the moment it was saved.",
     ["inputs", "histories"], "every reader state, token, context and following bits; every sequence of reads, saves and restores",
     "tests read complete streams; copies reaching before the start, wrapping the window, and restores in mid-copy are not sampled",
     [J + "entropy_coding/decode.rs"], [("SymbolReader::{read_unsigned,read_signed,checkpoint,restore,check_final_state}, Lz77State", J + "entropy_coding/decode.rs")],
     ["SymbolReader::read_unsigned_inline/read_signed_inline/read_unsigned_clustered*", "Lz77State::{push,pull,apply_copy}", "decode_varint16", "unpack_signed", "SymbolReader::checkpoint/restore (sampled)",
      "check_final_state"], KT,
     "one symbol from an arbitrary state is proved; short-distance table, next-symbol after histories and the 2^20 window are bounded stand-ins", [], [TAPE])

prop("C07", "Context maps and entropy-code headers decode exactly as defined",
     "A context map is decoded (simple or entropy-coded, with or without move-to-front) to the cluster of every context, and rejected when a cluster number is out of range or unused; "
     "the entropy-code header yields the LZ77 parameters, clusters, code kind and per-cluster integer configurations it defines and consumes exactly its own bits.",
     ["inputs"], "every header bit string for every number of contexts",
     "files use a few maps; unused clusters, deep move-to-front chains and truncated headers are not sampled",
     [J + "entropy_coding/context_map.rs", J + "entropy_coding/decode.rs"],
     [("decode_context_map, move_to_front, verify_context_map", J + "entropy_coding/context_map.rs"), ("Histograms::decode", J + "entropy_coding/decode.rs")],
     ["move_to_front / inverse transform", "decode_context_map (sampled)", "verify_context_map (sampled)", "Histograms::decode (sampled)"], KT,
     "one inverse move-to-front step is proved; whole maps and headers are bounded stand-ins (sampled on the real code)", [], [TAPE])

prop("C08", "Permutations and the table of contents decode to exactly what they encode",
     "A Lehmer-coded permutation is decoded to the permutation it encodes, or rejected when a code is out of range or too long; the table of contents yields every section's size "
     "and the section order, in one go or incrementally from any prefix, identically.",
     ["inputs", "histories"], "every code of every length; every table of contents and every way of cutting it",
     "tests decode a few small permutations; long ones, skipped prefixes, invalid codes and cuts inside the table are not sampled",
     [J + "headers/permutation.rs", J + "headers/toc.rs"],
     [("decode_lehmer_code, Permutation::{decode,compose}", J + "headers/permutation.rs"), ("Toc / IncrementalTocReader", J + "headers/toc.rs")],
     ["get_context", "value_of_lowest_1_bit", "decode_lehmer_code", "Permutation::compose", "IncrementalTocReader::{read_step,finalize}"], KT,
     "contexts and one table-of-contents entry are proved; permutations are proved up to 4 elements and sampled up to 3000", [], [TAPE])

prop("C09", "File signatures are recognised from any prefix",
     "A file prefix is classified as codestream or container exactly when it starts with the whole signature, asks for exactly the missing number of bytes when it is a proper prefix "
     "of one, and is reported as neither otherwise.",
     ["inputs"], "every byte string (only the first 12 bytes are ever examined)",
     "tests try eight prefixes; near misses and the interplay of two signatures of different length are not sampled",
     [J + "api/signature.rs"], [("check_signature, check_signature_internal", J + "api/signature.rs")],
     ["check_signature", "check_signature_internal"], KT, "proved for every prefix of up to 14 bytes, which covers both signatures")

prop("C10", "The container yields exactly the codestream it carries",
     "Whatever the box layout (single or split codestream boxes, out-of-order parts, empty boxes, large or open-ended sizes, interleaved other boxes) and however the input arrives and is requested, "
     "the codestream delivered is exactly the concatenation of the parts in order, it ends where the last part ends, invalid layouts are rejected, and recorded file positions and "
     "seek checkpoints resume at exactly the recorded codestream position.",
     ["inputs", "histories", "schedules"], "every container, every partition of its arrival and every sequence of reads and skips",
     "tests read a few containers in one piece; arrival boundaries inside headers, empty and out-of-order parts, and resuming inside a part are not sampled",
     [J + "api/inner/box_parser.rs", J + "api/inner/process.rs", J + "api/input.rs", J + "util/concat_slice.rs"],
     [("BoxParser, CodestreamInput", J + "api/inner/box_parser.rs"), ("SmallBuffer", J + "api/inner/process.rs"), ("JxlBitstreamInput::skip", J + "api/input.rs"), ("ConcatSlice", J + "util/concat_slice.rs")],
     ["SmallBuffer::{refill,take,consume,with_br}", "ConcatSlice::{remaining_slices,advance,peek,fill_vec}", "BoxParser / CodestreamInput (sampled)"], KT,
     "buffers are verified exhaustively for small capacities (bounded); the box parser is a bounded stand-in: sampled on the real code against an independent container reader", level="other")

prop("C11", "Image headers decode to exactly the image they describe",
     "The image header (size and preview size with ratios, orientation, intrinsic size, animation, bit depth, extra channels, colour encoding, tone mapping, opsin and upsampling data, extensions) "
     "decodes to exactly the values its codes define, consumes exactly its bits, and is rejected when a value is outside what the format or the decoder's level allows or when it is cut short; "
     "the orientation maps every pixel and rectangle of the stored image to its displayed place.",
     ["inputs"], "every image header and every orientation, size, pixel and rectangle",
     "tests decode the headers of some files; ratios, large sizes, custom primaries, reserved enumerators, non-default extra channels and truncations are not sampled",
     [J + "headers/size.rs", J + "headers/bit_depth.rs", J + "headers/color_encoding.rs", J + "headers/extra_channels.rs", J + "headers/image_metadata.rs", J + "headers/transform_data.rs", J + "headers/mod.rs"],
     [("Size, Preview", J + "headers/size.rs"), ("ImageMetadata, Orientation", J + "headers/image_metadata.rs"), ("ColorEncoding", J + "headers/color_encoding.rs"), ("ExtraChannelInfo", J + "headers/extra_channels.rs"),
      ("CustomTransformData", J + "headers/transform_data.rs"), ("FileHeader", J + "headers/mod.rs")],
     ["Size/Preview readers and map_aspect_ratio", "BitDepth reader", "ColorEncoding reader", "ExtraChannelInfo reader", "Orientation::{is_transposing,map_size,display_pixel,display_rect}", "Animation, ToneMapping readers",
      "FileHeader reader (sampled)", "CustomTransformData reader (sampled)"], KT,
     "size, preview, bit depth, extra channel, animation, tone mapping and orientation are proved; colour encoding is bounded to 128 bits; the whole header is a bounded stand-in (sampled on the real code against an independent reader)",
     ["extra channel names are replaced by the empty name in the proof of the extra channel (names are C02's subject)"], [TAPE])

prop("C12", "Frame headers decode to exactly the frame they describe",
     "A frame header decodes to exactly the fields its codes define (with the defaults and conditions of the image header) or is rejected; the frame's padded, upsampled, block, group and "
     "low-frequency sizes, section counts, group rectangles, subsampling shifts and per-pass resolution brackets are those the fields define, and the group rectangles tile the frame exactly.",
     ["inputs"], "every frame header for every image header, every frame size and every group index",
     "tests decode the headers of some files; odd sizes, custom crops, subsampling, upsampling, partial groups at the edges, progressive passes and truncations are not sampled",
     [J + "headers/frame_header.rs"], [("FrameHeader, its geometry methods, Passes, BlendingInfo, RestorationFilter", J + "headers/frame_header.rs")],
     ["FrameHeader::{size,size_upsampled,size_blocks,size_padded,size_groups,num_groups,num_lf_groups,num_toc_entries,block_group_rect,lf_group_rect,hshift,vshift,maxhs,maxvs,is444,...}",
      "FrameHeader reader and check/postprocess (sampled)", "Passes::downsampling_bracket (sampled)"], KT,
     "the geometry is proved for all sizes up to the format limits per function; rectangles are proved up to 4 by 4 groups and sampled beyond; the reader is a bounded stand-in (sampled on the real code against an independent reader)",
     ["channel shifts and upsampling factors range over what a decoded header can hold"])

prop("C13", "Image buffers give every row and rectangle exactly its own bytes, or an error",
     "Rectangle clipping, rounding and containment checks are exact for all coordinates; an image buffer of any size is allocated aligned and zeroed or refused with an error; rows, sub-rectangles and distinct-row "
     "borrows address exactly their own bytes of the allocation, never overlap and never leave it, and typed images behave as the plain grid of samples they stand for.",
     ["inputs", "histories"], "every rectangle and size; every sequence of accesses",
     "tests use small images; overflowing sizes and coordinates, padding between rows, empty rectangles and aliasing of rows are not sampled",
     [J + "image/rect.rs", J + "image/internal.rs", J + "image/typed.rs", J + "image/raw.rs", J + "image/output_buffer.rs"],
     [("Rect", J + "image/rect.rs"), ("RawImageBuffer", J + "image/internal.rs"), ("Image, ImageRect, ImageRectMut", J + "image/typed.rs")],
     ["Rect::{end,is_within,clip,downsample,...}", "RawImageBuffer::{row,row_mut,rect,check_vals,distinct_rows_mut,try_allocate,minimum_allocation_size}", "Image/ImageRect (sampled)"], KT,
     "rectangle algebra and alignment arithmetic proved; buffers of 40 bytes and up to 4 rows checked exhaustively (bounded), larger typed images sampled against a plain grid", ["allocation is replaced by a failing allocator in the proof about refused sizes"])

prop("C14", "Small vectors behave as vectors and own every element exactly once",
     "A small vector holds exactly the elements pushed and collected into it, in order, whatever mix of pushes and extensions filled it and whether they fit inline or moved to the heap; every element is "
     "created, moved and destroyed exactly once.",
     ["inputs", "histories"], "every element sequence, every inline state and every sequence of operations (proved by induction over one operation)",
     "tests compare byte vectors; ownership of elements with destructors across the move to the heap is not observed",
     [J + "util/smallvec.rs"], [("SmallVec::{push,extend,move_to_heap,drop,deref}", J + "util/smallvec.rs")],
     ["SmallVec::new/len/is_empty/deref/push/extend/move_to_heap_impl/drop/from_iter"], KT,
     "one push or extend from every inline state of capacity 2, against an abstract heap storage, is proved; the code is the same for every capacity, larger ones (with Vec) are sampled",
     ["the heap storage keeps its contract (Vec in the decoder)"])

prop("C15", "Half-floats convert exactly",
     "Every half-float converts to the single-precision number of the same value (NaN to NaN, zeros and infinities with their sign); every single-precision number converts to the "
     "nearest half-float (ties to even), to infinity beyond the largest, and every half-float survives the round trip; both conversions of the crate pair agree.",
     ["inputs"], "all 2^16 half-floats and all 2^32 single-precision numbers",
     "tests try a few values; subnormals, rounding boundaries and overflow boundaries are not sampled",
     [J + "util/float16.rs"], [("f16::{from_f32,to_f32,...}", J + "util/float16.rs")],
     ["f16::to_f32", "f16::from_f32", "f16 predicates and conversions"], KT, "proved for every bit pattern")

M = J + "frame/modular/"
prop("C16", "Lists of modular transforms are undone exactly, in reverse",
     "A valid list of modular transforms (reversible colour, palette, squeeze with listed or default steps) turns the channel list into exactly the channels it defines and is rejected when it does not fit the channels; "
     "undoing the list in reverse gives each output sample exactly the value the transforms define, for every channel shape including empty ones; each of the 42 reversible colour transforms is exactly inverted, and is lossless.",
     ["inputs"], "every list of transforms, every channel list, every sample",
     "tests apply a few transforms to a few shapes; chains of different transforms over meta channels, tiny or empty channels, and extreme samples are not sampled",
     [M + "transforms/rct.rs", M + "transforms/apply_local.rs", M + "transforms/meta_apply.rs"],
     [("do_rct_step", M + "transforms/rct.rs"), ("meta_apply_local_transforms, TransformStep::local_apply", M + "transforms/apply_local.rs"), ("meta_apply_single_transform", M + "transforms/meta_apply.rs")],
     ["rct_step sample arithmetic (all 42 transforms, all 32-bit samples)", "do_rct_step (sampled)", "meta_apply_local_transforms, meta_apply_single_transform, TransformStep::local_apply (sampled)"], KT,
     "the colour transforms are proved for every sample; whole chains are a bounded stand-in (sampled on the real code against an independent reference)",
     ["the rows of do_rct_step are checked by sampling, on the SIMD paths of the machine"])

prop("C17", "Squeezed channels are restored exactly",
     "Undoing a squeeze gives exactly the two samples that each average and residual define under the smoothness tendency of their neighbours, in both directions, for odd and even lengths, whatever vector width "
     "processes a row; the default squeeze steps are exactly those defined for the channel list, and steps that do not fit the channels are rejected.",
     ["inputs"], "every sample triple, every row length and every channel list",
     "tests squeeze a few shapes; ties and truncation in the tendency, odd tails and vector remainders depend on the values and lengths",
     [M + "transforms/squeeze.rs"], [("smooth_tendency_scalar/_impl, unsqueeze, hsqueeze/vsqueeze, default_squeeze, check_squeeze_params", M + "transforms/squeeze.rs")],
     ["smooth_tendency_scalar", "smooth_tendency_impl", "unsqueeze_scalar", "unsqueeze_impl", "check_squeeze_params", "default_squeeze (sampled)", "do_hsqueeze_step/do_vsqueeze_step (sampled)"], KT,
     "scalar tendency and both pair reconstructions are proved for samples of up to 31 and 29 bits; the division-free vector tendency is bounded (7-bit samples, its division by 3 up to 16 bits) and sampled; rows are sampled on the SIMD paths of the machine",
     ["samples of at most 31 bits in the tendency, 29 in the reconstruction (its arithmetic is 32-bit in the vector path)"])

prop("C18", "Palette indices become the colours they name, however the image is divided",
     "Every palette index (explicit, delta, and the implicit colours beyond and below the palette) names exactly the defined colour component for every bit depth; undoing a palette gives each sample its colour plus, for delta "
     "entries, the predictor's value over the already restored channel, and the result is the same whether the channel is undone whole, group by group with the borders of its neighbours, or by rows of groups.",
     ["inputs", "schedules"], "every index, component, palette size and bit depth; every channel, predictor and division into groups",
     "tests use explicit indices in one group; implicit colours, delta entries next to group borders, and the predictor state carried between rows of groups are not sampled",
     [M + "transforms/palette.rs", M + "buffers.rs"],
     [("get_palette_value, do_palette_step_general, do_palette_step_one_group, do_palette_step_group_row, zero_palette_step_one_group", M + "transforms/palette.rs"), ("ModularBuffer::extract_needed_borders", M + "buffers.rs")],
     ["get_palette_value", "do_palette_step_general/one_group/group_row, zero_palette_step_one_group, extract_needed_borders, WeightedPredictorState::{save,restore}_state (sampled)"], KT,
     "implicit colours are proved for every 32-bit index, palettes of up to 2^20 colours and all bit depths; undoing is a bounded stand-in (sampled on the real code against an independent whole-channel reference)",
     ["group rows have even height and groups at least two columns, as in every frame whose channels are not squeezed down to a group size of 1"])

prop("C19", "Predictors compute exactly the defined prediction from the defined neighbours",
     "The neighbours of a position (including at the edges of a channel and when stepping along a row) are exactly the defined samples or substitutes; each of the 14 predictors gives exactly its defined value for all 32-bit samples; the "
     "self-correcting predictor gives exactly the defined prediction and property at every position, also when its state is saved and restored between rows of groups.",
     ["inputs", "histories"], "every neighbourhood, every channel history and every parameter",
     "tests compare a few golden numbers for small samples; edges, ties, rounding of negative numbers and extreme samples are not sampled",
     [M + "predict.rs"], [("PredictionData, Predictor::predict_one, clamped_gradient, WeightedPredictorState", M + "predict.rs")],
     ["PredictionData::get_rows", "PredictionData::update_for_interior_row", "Predictor::try_from", "Predictor::predict_one", "Predictor::select", "clamped_gradient", "WeightedPredictorState::{new,predict_and_property,update_errors,save_state,restore_state} (sampled)"], KT,
     "predictors and gradient proved for all samples; neighbours checked exhaustively on rows of up to 6 samples (the code reads at most two samples to each side); the self-correcting predictor is a bounded stand-in (sampled against an independent reference)")

prop("C20", "Modular channels decode exactly as their decision tree prescribes",
     "The header and decision tree of a modular sub-bitstream decode to exactly the fields they encode, and trees with unreachable branches, undefined predictors or properties, too many nodes or too great a depth are rejected; "
     "for every tree, entropy code and channel list, each sample decodes to the predictor of the leaf its properties lead to plus offset and scaled residual, whichever specialised decoder is chosen; damaged streams are reported and never panic.",
     ["inputs"], "every tree, entropy code, channel list and bit stream",
     "tests decode files made by one encoder; the specialised decoders (run lengths, constant symbols, lookup tables, flat trees, small channels) are each taken only for particular combinations of tree, code and channel size",
     [M + "tree.rs", M + "flat_tree.rs", M + "decode/bitstream.rs", M + "decode/channel.rs", M + "decode/common.rs", M + "decode/specialized_trees.rs", J + "headers/modular.rs"],
     [("decode_modular_subbitstream, decode_fast_lossless", M + "decode/bitstream.rs"), ("run_on_specialized_tree and its decoders", M + "decode/specialized_trees.rs"), ("Tree::read, validate_tree, compute_properties", M + "tree.rs"),
      ("GroupHeader, WeightedHeader, Transform, SqueezeParams", J + "headers/modular.rs")],
     ["compute_properties", "make_pixel", "WeightedHeader and SqueezeParams readers", "GroupHeader, Transform readers (sampled)", "Tree::read, validate_tree (sampled)", "decode_modular_subbitstream and every specialised decoder under it (sampled)"], KT,
     "properties, sample reconstruction and the fixed-size headers are proved; whole streams are a bounded stand-in (sampled on the real code against an independent per-sample reference that walks the tree)",
     ["leaf multipliers are below 2^31 in the proof of sample reconstruction", "the reference reads symbols through the plain path of the symbol reader (C06)", "run lengths that overflow are not required to be reported (documented in the source)"], [TAPE])

prop("C22", "Samples convert to and from integers with correct rounding, clamping and scale",
     "A float sample is written as an integer of the requested bit depth as its scaled value rounded to nearest (8-bit output may differ by less than the half step its dither adds), "
     "clamped to 0 and the depth's maximum, with NaN and negatives as 0; integer samples survive the trip through float exactly; integer samples are rescaled and clamped to 8 bits; "
     "custom-width float samples become the number they encode; whole rows are converted sample by sample and nothing beyond the requested pixels is written.",
     ["inputs"], "every sample value, bit depth and float layout",
     "tests convert a few values at common depths; NaN, infinities, subnormals, out-of-range values and odd bit depths are not sampled",
     [J + "render/stages/convert.rs", J + "headers/bit_depth.rs"],
     [("f32_to_u8/f32_to_u16/i32_to_u8/int_to_float rows", J + "render/stages/convert.rs"), ("BitDepth", J + "headers/bit_depth.rs")],
     ["ConvertF32ToU8Stage", "ConvertF32ToU16Stage", "ConvertI32ToU8Stage", "ConvertModularToF32Stage (int_to_float)"], KT,
     "proved per sample for every bit pattern; the row loops on rows of at most 3 pixels",
     ["only the scalar SIMD descriptor is verified"])

prop("C21", "High-frequency coefficients are stored in exactly the order that is coded",
     "The natural order of every transform lists its low-frequency coefficients first and the others along the diagonals of the stretched block, each exactly once; every order coded in the stream is that natural order "
     "under its decoded permutation, uncoded ones stay natural, and invalid or truncated orders are rejected.",
     ["inputs"], "every transform and every set of coded orders", "tests check golden numbers for a few shapes; composition with coded permutations and rectangular shapes are not sampled",
     [J + "frame/coeff_order.rs", "jxl_transforms/src/transform_map.rs"], [("natural_coeff_order, decode_coeff_orders", J + "frame/coeff_order.rs"), ("covered_blocks_x/y, block_shape_id", "jxl_transforms/src/transform_map.rs")],
     ["natural_coeff_order (8x8; 16x8 and 16x16 in the thorough tier)", "HfTransformType::from_usize, covered_blocks_x/y, block_shape_id", "natural_coeff_order (all 13, executed)", "decode_coeff_orders (sampled)"], KT,
     "shapes and the 8x8 order are proved; the other orders have no input and are compared by execution; decoding is a bounded stand-in", ["permutations are decoded by C08's contract"])

prop("C23", "VarDCT frame parameters and coefficient contexts are exactly those defined",
     "The quantizer, low-frequency quantization factors, colour correlation and block context map of a frame decode to exactly the values their codes define or are rejected; the context of every block, "
     "nonzero count and coefficient is the one the map and the format's buckets define, and stays inside the contexts allotted.",
     ["inputs"], "every header bit string; every block and coefficient position",
     "tests decode the parameters of some files; long thresholds, rare codes, invalid halves, oversized maps and contexts of overfull blocks are not sampled",
     [J + "frame/quantizer.rs", J + "frame/color_correlation_map.rs", J + "frame/block_context_map.rs"],
     [("QuantizerParams, LfQuantFactors", J + "frame/quantizer.rs"), ("ColorCorrelationParams", J + "frame/color_correlation_map.rs"), ("BlockContextMap, zero_density_context", J + "frame/block_context_map.rs")],
     ["QuantizerParams::read", "QuantizerParams::inv_global_scale (sampled; proved in the thorough tier)", "LfQuantFactors::new", "ColorCorrelationParams::read", "zero_density_context", "BlockContextMap::{nonzero_context,zero_density_context_offset,block_context}", "BlockContextMap::read (sampled)"], KT,
     "fixed-size headers and coefficient contexts proved; the context of a block is proved for up to 3 thresholds; reading the map is a bounded stand-in", ["the clusters inside a block context map are decoded by C07's contract", "the largest frame-level numbers only: inverse factors are not specified beyond the global scale"], [TAPE])

prop("C24", "Noise is generated and added exactly as defined",
     "The noise generator produces, for every quadruple of seeds, exactly the defined sequence; noise parameters decode to the eight strengths coded; the strength at any brightness is the interpolation of its two "
     "neighbouring strengths; filtering and adding noise changes each sample by the defined combination of random numbers, strengths and colour correlation, up to rounding, and nothing else.",
     ["inputs"], "every seed, state, parameter set, brightness and row",
     "tests compare golden numbers for one seed and one row; brightness beyond the table, negative values and row ends are not sampled",
     [J + "util/xorshift128plus.rs", J + "features/noise.rs", J + "render/stages/noise.rs"],
     [("Xorshift128Plus", J + "util/xorshift128plus.rs"), ("Noise::{read,strength}", J + "features/noise.rs"), ("ConvolveNoiseStage, AddNoiseStage", J + "render/stages/noise.rs")],
     ["Xorshift128Plus::{new_with_seeds,fill,split_mix_64}", "Noise::read", "Noise::strength (range and neighbours)", "Noise::strength, ConvolveNoiseStage, AddNoiseStage (sampled)"], KT,
     "generator, parameters and the range of strengths are proved; the interpolated values and the stages' rows are bounded stand-ins (sampled, float tolerance 1e-4)", ["rows of at most 40 samples of moderate size in the sampled stages"], [TAPE])

prop("C27", "Embedded ICC profiles decode to exactly the profile that was coded",
     "The bytes of a coded ICC profile are read in their defined contexts, and the header predictions, tag list entries and copy, interleave and prediction commands rebuild exactly the profile they describe; "
     "offsets or sizes beyond 32 bits, lengths that do not match, unused data, unknown codes and truncated streams are rejected; an attempt that runs out of input leaves nothing behind.",
     ["inputs", "histories"], "every coded profile; every place where the input can end for the time being",
     "tests decode the profiles of a few files; rare commands, orders, strides, oversized tags, overfull or short profiles and interrupted reading are not sampled",
     [J + "icc/mod.rs", J + "icc/header.rs", J + "icc/stream.rs", J + "icc/tag.rs"],
     [("IncrementalIccReader, read_icc_inner", J + "icc/mod.rs"), ("predict_header", J + "icc/header.rs"), ("IccStream, read_varint", J + "icc/stream.rs"), ("read_tag_list, read_single_command", J + "icc/tag.rs")],
     ["IncrementalIccReader::get_icc_ctx", "predict_header", "read_varint", "IccStream::{read_exact,finalize,remaining_bytes}", "shuffle_w2, shuffle_w4 (lengths to 9)", "read_tag_list (sampled)", "read_single_command (sampled)", "read_icc_inner (sampled)", "IncrementalIccReader (sampled)"], KT,
     "contexts, header prediction, varints and the stream's bounds are proved; commands, tag lists and whole profiles are bounded stand-ins against an independent decoder",
     ["integers of ten bytes and commands after a profile of at most 128 bytes are not specified", "the coded symbols are decoded by C06's contract"])

prop("C25", "Block coefficients of each group decode and dequantise exactly as defined",
     "The coefficients of every block of a group are exactly those coded: the histogram set, the predicted number of nonzeros, the contexts, orders and pass shifts are the defined ones under every subsampling and split "
     "into passes, and counts that do not fit, wrong histogram sets and truncated groups are rejected; dequantisation is the defined product of coefficient, bias, table, quantizer and colour correlation.",
     ["inputs", "histories"], "every group of blocks and every way its passes arrive",
     "tests decode a few files; large transforms beside small ones, subsampled chroma, several passes with shifts, custom orders, overfull blocks and truncated groups are not sampled",
     [J + "frame/group.rs"],
     [("decode_vardct_group, predict_num_nonzeros, dequant_block", J + "frame/group.rs")],
     ["adjust_quant_bias", "predict_num_nonzeros (2x2 blocks)", "decode_vardct_group up to the inverse transform (sampled)", "dequant_block (sampled)"], KT,
     "the bias of a coefficient is proved for every coefficient; whole groups and blocks are bounded stand-ins against an independent decoder",
     ["the coded symbols are decoded by C06's contract", "dequantised values are compared up to a relative error of 2e-6"])

prop("C26", "Low-frequency images and block metadata decode exactly as defined",
     "The transforms, quantizers, sharpness and colour correlation of all blocks are exactly those coded, laid out by the defined scan; every place is covered by exactly one block that stays in its group and frame, "
     "and other layouts, values and subsamplings are rejected; the low-frequency samples and their contexts are the defined products and buckets; every modular stream has the defined number.",
     ["inputs"], "every metadata stream and low-frequency image",
     "tests decode valid files, whose blocks never overlap or leave the frame; frames past one low-frequency group, padded subsampled frames and unusual factors are not sampled",
     [J + "frame/modular/mod.rs", J + "frame/modular/decode/common.rs", "jxl_transforms/src/transform_map.rs"],
     [("decode_hf_metadata, decode_vardct_lf", J + "frame/modular/mod.rs"), ("ModularStreamId::get_id", J + "frame/modular/decode/common.rs"), ("HfTransformType::from_usize, covered_blocks_*", "jxl_transforms/src/transform_map.rs")],
     ["HfTransformType::from_usize, covered_blocks_x, covered_blocks_y", "decode_hf_metadata (sampled)", "decode_vardct_lf, dequant_lf (sampled)", "ModularStreamId::get_id (sampled)"], KT,
     "the table of transforms is proved; decoding metadata and low-frequency images is a bounded stand-in against an independent decoder",
     ["the coded samples are decoded by C15's and C06's contracts"])

prop("C28", "Rendering group by group evaluates the stages over the whole image",
     "However the groups of a frame arrive, in any order, repeatedly and from several threads, the saved pixels are those of evaluating every stage of the pipeline over the whole image, reflected at its edges and extended to the canvas; "
     "each pixel is saved once, at the place the crop, the orientation and the downsampling define, in the channels, format, byte order and opaque alpha asked for, and nothing else of the output is written.",
     ["inputs", "schedules"], "every pipeline of stages, image size, output, orientation and order of groups",
     "tests render a few sizes with one order and one stage at a time; late neighbours, narrow last groups, borders after upsampling, subsampled channels beside wide borders, repeated rounds and threads are not sampled",
     [J + "render/low_memory_pipeline/mod.rs", J + "render/low_memory_pipeline/group_scheduler.rs", J + "render/low_memory_pipeline/render_group.rs", J + "render/low_memory_pipeline/row_buffers.rs", J + "render/low_memory_pipeline/save/mod.rs",
      J + "render/low_memory_pipeline/run_stage.rs", J + "render/buffer_splitter.rs", J + "render/save.rs", J + "render/builder.rs", J + "util/mirror.rs", J + "headers/image_metadata.rs", J + "api/data_types.rs"],
     [("ready_image_area, foreach_ready_rect, render_with_new_group", J + "render/low_memory_pipeline/group_scheduler.rs"), ("LowMemoryRenderPipeline::render_group", J + "render/low_memory_pipeline/render_group.rs"), ("RowBuffer", J + "render/low_memory_pipeline/row_buffers.rs"),
      ("SaveStage", J + "render/save.rs"), ("mirror", J + "util/mirror.rs"), ("Orientation::{display_pixel,display_rect}", J + "headers/image_metadata.rs")],
     ["ready_image_area", "foreach_ready_rect", "mirror", "Orientation::{display_size,display_pixel,display_rect}", "JxlDataFormat::{to_native_endian,opaque_alpha_bytes,bytes_per_sample,data_type}", "RenderPipelineBuilder, LowMemoryRenderPipeline, SaveStage, ExtendToImageDimensionsStage (sampled)"], KT,
     "that the areas around groups tile the image, are covered by what is ready and kept, and fit the buffers is proved, as are reflection, orientations and opaque alpha; whole pipelines are a bounded stand-in against an evaluation of the stages over the whole image",
     ["stages are arbitrary sums over their windows with the borders, subsampling and types of the decoder's own stages", "borders of at most half a group, saves before the extension in the coded orientation, as the decoder builds them"])

prop("C29", "Layers, patches and frames blend exactly as defined",
     "Every sample of the canvas is the one the blend mode of its channel defines for the samples below and above it (kept, replaced, added, multiplied, alpha-blended or weighted by alpha, premultiplied or not, clamped or not), wherever a frame or patch lies relative to the canvas; "
     "patch dictionaries place exactly the patches coded in them, and those that leave the image, their reference or the limits are rejected.",
     ["inputs"], "every mode, alpha, position and size of frames and patches", "tests blend a few images; clamping, crops beyond the canvas, alpha channels used by several modes and overlapping patches are not sampled",
     [J + "features/blending.rs", J + "features/patches.rs", J + "render/stages/blending.rs", J + "render/stages/extend.rs", J + "frame/decode.rs"],
     [("perform_blending", J + "features/blending.rs"), ("PatchesDictionary::{read,set_patches_for_row,add_one_row}", J + "features/patches.rs"), ("BlendingStage", J + "render/stages/blending.rs"), ("ExtendToImageDimensionsStage", J + "render/stages/extend.rs")],
     ["perform_blending (one pixel: modes that keep, replace or add; opaque and transparent layers, weights and factors zero and one)", "perform_blending, PatchesDictionary::{read,set_patches_for_row,add_one_row}, BlendingStage, ExtendToImageDimensionsStage (sampled)"], KT,
     "for one pixel with an extra channel, that modes keep, replace or add, that opaque layers hide and transparent ones keep what is below, and what weights and factors of zero and one do is proved for all samples; other alphas, rows, dictionaries and frames are a bounded stand-in against the definitions of the modes",
     ["products are compared within a relative tolerance, their order of evaluation is free", "that every reference frame and extra channel is saved before it is used"])

prop("C30", "Filters and resampling compute exactly the defined kernels",
     "Every sample after the Gabor-like filter, each pass of the edge-preserving filter, the smoothing of low frequencies, chroma upsampling and upsampling by two, four and eight is the one the defined kernel gives for its neighbours: "
     "with the weights of the headers, the strength of its own block, the multiplier at borders of blocks, no change in sharp blocks and at image borders, and never outside the range of its neighbours when upsampled.",
     ["inputs"], "every neighbourhood, weight, strength and position", "tests filter a few flat or random images and compare implementations with each other; mirrored kernel taps, blocks of different strength side by side, borders of groups and unaligned chunks are not sampled",
     [J + "render/stages/gaborish.rs", J + "render/stages/epf/common.rs", J + "render/stages/epf/epf0.rs", J + "render/stages/epf/epf1.rs", J + "render/stages/epf/epf2.rs", J + "features/epf.rs", J + "frame/adaptive_lf_smoothing.rs",
      J + "render/stages/upsample.rs", J + "render/stages/chroma_upsample.rs"],
     [("GaborishStage", J + "render/stages/gaborish.rs"), ("Epf0Stage, Epf1Stage, Epf2Stage", J + "render/stages/epf/mod.rs"), ("prepare_sad_mul_storage, get_sigma", J + "render/stages/epf/common.rs"), ("SigmaSource::new", J + "features/epf.rs"),
      ("adaptive_lf_smoothing", J + "frame/adaptive_lf_smoothing.rs"), ("Upsample::new", J + "render/stages/upsample.rs"), ("HorizontalChromaUpsample, VerticalChromaUpsample", J + "render/stages/chroma_upsample.rs")],
     ["prepare_sad_mul_storage", "get_sigma", "Upsample::new (two and four)", "all stages, SigmaSource::new, adaptive_lf_smoothing (sampled)"], KT,
     "the multipliers at block borders, the block whose strength a sample gets and the tap every upsampling weight belongs to are proved; the sums themselves are a bounded stand-in against independent kernels in double precision",
     ["sums are compared within a relative tolerance, their order of evaluation is free", "rows are padded as the pipeline pads them (C28)"])

NA = {}


def na(pid, title, statement, over, text, why, files, mech, reason):
    NA[pid] = dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, reason=reason)


na("C90", "Decoding in any number of input pieces equals decoding in one",
   "However the input bytes are cut into pieces and however output is requested in between, the decoder reports the same events, metadata and pixels as for the whole input at once.",
   ["inputs", "schedules"], "every file and every way of cutting it", "tests cut a few files at a few sizes",
   [J + "api/inner/codestream_parser/mod.rs", J + "api/inner/codestream_parser/frame_info.rs"], [("JxlDecoderInner::process, CodestreamParser", J + "api/inner/codestream_parser/mod.rs")],
   "a relation between two complete runs of the decoder over symbolic files: no contract verifier at hand carries the state (heap-allocated frames, boxed pipelines, threads) of one run; "
   "its parts that contracts can reach are C01, C06 (checkpoints), C08 (incremental table of contents) and C10 (container input)")
na("C91", "Parallel and serial decoding give identical pixels",
   "Whatever the number of threads and the order in which groups finish, the decoded pixels are identical to those of a single-threaded decode.",
   ["inputs", "schedules"], "every file and every schedule of the group tasks", "tests run a few schedules",
   [J + "render/low_memory_pipeline/mod.rs", J + "frame/decode.rs"], [("Frame::decode_and_render_hf_groups, LowMemoryRenderPipeline", J + "frame/decode.rs")],
   "Kani and Verus-on-the-real-code both lack a model of the thread pool and atomics used here (rayon scopes over shared cells); the sequential contracts cannot express schedules of the real code")
na("C92", "Vector and scalar implementations of every stage agree",
   "Each rendering stage gives the same output, up to the documented rounding, on every SIMD backend the machine may select.",
   ["inputs"], "every stage, input and backend", "tests compare random rows",
   ["jxl_simd/src/lib.rs"], [("SimdDescriptor implementations", "jxl_simd/src/x86_64")],
   "Kani has no semantics for the x86/NEON intrinsics the backends are made of; only the scalar descriptor can be proved. Sampled stand-ins of C16-C22 do run on the machine's SIMD paths")
na("C93", "VarDCT and colour transforms are as accurate as the format requires",
   "The inverse DCTs, XYB, YCbCr, transfer-function and tone-mapping stages compute their defined real functions within the conformance tolerance.",
   ["inputs"], "every coefficient block and pixel", "tests compare against golden files",
   ["jxl_transforms/src/lib.rs", J + "color/tf.rs", J + "render/stages/xyb.rs"], [("idct2d_*", "jxl_transforms/src"), ("tf", J + "color/tf.rs")],
   "error bounds on chains of floating-point additions, multiplications and rational polynomials are beyond CBMC's bit-blasted floats (one 8-point transform exceeds the solver) and no floating-point "
   "deductive back end (Gappa-like) for Rust is installed")
na("C94", "No input makes the whole decoder panic, overflow, hang or exceed its limits",
   "For every byte string the decoder returns an image, asks for more input or reports an error, in time and memory bounded by the declared limits.",
   ["inputs"], "every byte string", "fuzzing and tests sample inputs",
   [J + "api/decoder.rs"], [("JxlDecoder::process", J + "api/decoder.rs")],
   "needs a proof of every function in the crate; here it is claimed function by function (every harness proves absence of panics for what it reaches), not for the whole")
