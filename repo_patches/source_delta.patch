From 122bfd041bdb182caf7b1a6390979f9b51f7e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:19 +0000
Subject: [PATCH 01/32] verif: add cfg(jxl_verif)-guarded hook modules (no
 effect without the flag)

---
 jxl/src/api/data_types.rs                     |  2 ++
 jxl/src/api/decoder.rs                        |  2 ++
 jxl/src/api/inner/box_parser.rs               |  2 ++
 jxl/src/api/inner/process.rs                  |  2 ++
 jxl/src/api/input.rs                          |  2 ++
 jxl/src/api/options.rs                        |  2 ++
 jxl/src/api/signature.rs                      |  2 ++
 jxl/src/bit_reader.rs                         |  2 ++
 jxl/src/color/tf.rs                           |  2 ++
 jxl/src/entropy_coding/ans.rs                 |  2 ++
 jxl/src/entropy_coding/context_map.rs         |  2 ++
 jxl/src/entropy_coding/decode.rs              |  2 ++
 jxl/src/entropy_coding/huffman.rs             |  2 ++
 jxl/src/entropy_coding/hybrid_uint.rs         |  2 ++
 jxl/src/features/blending.rs                  |  2 ++
 jxl/src/features/noise.rs                     |  2 ++
 jxl/src/features/patches.rs                   |  2 ++
 jxl/src/features/spline.rs                    |  2 ++
 jxl/src/frame/adaptive_lf_smoothing.rs        |  2 ++
 jxl/src/frame/block_context_map.rs            |  2 ++
 jxl/src/frame/coeff_order.rs                  |  2 ++
 jxl/src/frame/color_correlation_map.rs        |  2 ++
 jxl/src/frame/decode.rs                       |  2 ++
 jxl/src/frame/group.rs                        |  2 ++
 jxl/src/frame/mod.rs                          |  2 ++
 jxl/src/frame/modular/buffers.rs              |  2 ++
 jxl/src/frame/modular/decode/bitstream.rs     |  2 ++
 jxl/src/frame/modular/decode/channel.rs       |  2 ++
 jxl/src/frame/modular/decode/common.rs        |  2 ++
 .../frame/modular/decode/specialized_trees.rs |  2 ++
 jxl/src/frame/modular/flat_tree.rs            |  2 ++
 jxl/src/frame/modular/mod.rs                  |  2 ++
 jxl/src/frame/modular/predict.rs              |  2 ++
 .../frame/modular/transforms/apply_local.rs   |  2 ++
 .../frame/modular/transforms/meta_apply.rs    |  2 ++
 jxl/src/frame/modular/transforms/mod.rs       |  2 ++
 jxl/src/frame/modular/transforms/palette.rs   |  2 ++
 jxl/src/frame/modular/transforms/rct.rs       |  2 ++
 jxl/src/frame/modular/transforms/squeeze.rs   |  2 ++
 jxl/src/frame/modular/transforms/step.rs      |  2 ++
 jxl/src/frame/modular/tree.rs                 |  2 ++
 jxl/src/frame/quant_weights.rs                |  2 ++
 jxl/src/frame/quantizer.rs                    |  2 ++
 jxl/src/headers/bit_depth.rs                  |  2 ++
 jxl/src/headers/color_encoding.rs             |  2 ++
 jxl/src/headers/encodings.rs                  |  2 ++
 jxl/src/headers/extra_channels.rs             |  2 ++
 jxl/src/headers/frame_header.rs               |  2 ++
 jxl/src/headers/image_metadata.rs             |  2 ++
 jxl/src/headers/modular.rs                    |  2 ++
 jxl/src/headers/permutation.rs                |  2 ++
 jxl/src/headers/size.rs                       |  2 ++
 jxl/src/headers/toc.rs                        |  2 ++
 jxl/src/headers/transform_data.rs             |  2 ++
 jxl/src/icc/header.rs                         |  2 ++
 jxl/src/icc/mod.rs                            |  2 ++
 jxl/src/icc/stream.rs                         |  2 ++
 jxl/src/icc/tag.rs                            |  2 ++
 jxl/src/image/data_type.rs                    |  2 ++
 jxl/src/image/internal.rs                     |  2 ++
 jxl/src/image/output_buffer.rs                |  2 ++
 jxl/src/image/raw.rs                          |  2 ++
 jxl/src/image/rect.rs                         |  2 ++
 jxl/src/image/typed.rs                        |  2 ++
 jxl/src/lib.rs                                | 26 +++++++++++++++++++
 jxl/src/render/buffer_splitter.rs             |  2 ++
 jxl/src/render/builder.rs                     |  2 ++
 jxl/src/render/channels.rs                    |  2 ++
 jxl/src/render/internal.rs                    |  2 ++
 .../low_memory_pipeline/group_scheduler.rs    |  2 ++
 jxl/src/render/low_memory_pipeline/helpers.rs |  2 ++
 jxl/src/render/low_memory_pipeline/mod.rs     |  2 ++
 .../low_memory_pipeline/render_group.rs       |  2 ++
 .../render/low_memory_pipeline/row_buffers.rs |  2 ++
 .../low_memory_pipeline/save/identity.rs      |  2 ++
 .../render/low_memory_pipeline/save/mod.rs    |  2 ++
 jxl/src/render/save.rs                        |  2 ++
 jxl/src/render/simple_pipeline/extend.rs      |  2 ++
 jxl/src/render/simple_pipeline/save.rs        |  2 ++
 jxl/src/render/stages/blending.rs             |  2 ++
 jxl/src/render/stages/chroma_upsample.rs      |  2 ++
 jxl/src/render/stages/convert.rs              |  2 ++
 jxl/src/render/stages/extend.rs               |  2 ++
 jxl/src/render/stages/nearest_neighbor.rs     |  2 ++
 jxl/src/render/stages/upsample.rs             |  2 ++
 jxl/src/util/bits.rs                          |  2 ++
 jxl/src/util/concat_slice.rs                  |  2 ++
 jxl/src/util/fast_math.rs                     |  2 ++
 jxl/src/util/float16.rs                       |  2 ++
 jxl/src/util/linalg.rs                        |  2 ++
 jxl/src/util/log2.rs                          |  2 ++
 jxl/src/util/mirror.rs                        |  2 ++
 jxl/src/util/ndarray.rs                       |  2 ++
 jxl/src/util/shift_right_ceil.rs              |  2 ++
 jxl/src/util/smallvec.rs                      |  2 ++
 jxl/src/util/vec_helpers.rs                   |  2 ++
 jxl/src/util/xorshift128plus.rs               |  2 ++
 97 files changed, 218 insertions(+)

diff --git a/jxl/src/api/data_types.rs b/jxl/src/api/data_types.rs
index 01c88f7..64e0c39 100644
--- a/jxl/src/api/data_types.rs
+++ b/jxl/src/api/data_types.rs
@@ -289,3 +289,5 @@ pub struct JxlFrameHeader {
     /// Frame size (width, height)
     pub size: (usize, usize),
 }
+
+verif_hook!(api_data_types);
diff --git a/jxl/src/api/decoder.rs b/jxl/src/api/decoder.rs
index 4484497..4cf2e50 100644
--- a/jxl/src/api/decoder.rs
+++ b/jxl/src/api/decoder.rs
@@ -265,3 +265,5 @@ impl JxlDecoder<WithFrameInfo> {
         Ok(self.map_inner_processing_result(inner_result))
     }
 }
+
+verif_hook!(api_decoder);
diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 5ed1d9f..a932394 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -555,3 +555,5 @@ mod tests {
         assert!(input.is_empty());
     }
 }
+
+verif_hook!(api_inner_box_parser);
diff --git a/jxl/src/api/inner/process.rs b/jxl/src/api/inner/process.rs
index 7ac7fbb..2faf483 100644
--- a/jxl/src/api/inner/process.rs
+++ b/jxl/src/api/inner/process.rs
@@ -190,3 +190,5 @@ impl JxlDecoderInner {
         }
     }
 }
+
+verif_hook!(api_inner_process);
diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index dd4a91f..99653f0 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -68,3 +68,5 @@ impl<R: Read + Seek> JxlBitstreamInput for BufReader<R> {
             .map(|x| x.saturating_sub(cur) as usize)
     }
 }
+
+verif_hook!(api_input);
diff --git a/jxl/src/api/options.rs b/jxl/src/api/options.rs
index 0b165e1..54102ca 100644
--- a/jxl/src/api/options.rs
+++ b/jxl/src/api/options.rs
@@ -48,3 +48,5 @@ impl Default for JxlDecoderOptions {
         }
     }
 }
+
+verif_hook!(api_options);
diff --git a/jxl/src/api/signature.rs b/jxl/src/api/signature.rs
index ebe73e6..f4f4dbb 100644
--- a/jxl/src/api/signature.rs
+++ b/jxl/src/api/signature.rs
@@ -158,3 +158,5 @@ mod tests {
         Complete(Some(JxlSignatureType::Codestream))
     );
 }
+
+verif_hook!(api_signature);
diff --git a/jxl/src/bit_reader.rs b/jxl/src/bit_reader.rs
index 4c2d557..c6ba5ef 100644
--- a/jxl/src/bit_reader.rs
+++ b/jxl/src/bit_reader.rs
@@ -271,3 +271,5 @@ mod tests {
         assert_eq!(val, 0x12 >> 1); // Should get the lower 7 bits of 0x12
     }
 }
+
+verif_hook!(bit_reader);
diff --git a/jxl/src/color/tf.rs b/jxl/src/color/tf.rs
index 94b9638..27b1219 100644
--- a/jxl/src/color/tf.rs
+++ b/jxl/src/color/tf.rs
@@ -804,3 +804,5 @@ mod test {
         });
     }
 }
+
+verif_hook!(color_tf);
diff --git a/jxl/src/entropy_coding/ans.rs b/jxl/src/entropy_coding/ans.rs
index 9da5cbe..5a6da7e 100644
--- a/jxl/src/entropy_coding/ans.rs
+++ b/jxl/src/entropy_coding/ans.rs
@@ -504,3 +504,5 @@ mod test {
         });
     }
 }
+
+verif_hook!(entropy_coding_ans);
diff --git a/jxl/src/entropy_coding/context_map.rs b/jxl/src/entropy_coding/context_map.rs
index ec1b9ac..a955c72 100644
--- a/jxl/src/entropy_coding/context_map.rs
+++ b/jxl/src/entropy_coding/context_map.rs
@@ -74,3 +74,5 @@ pub fn decode_context_map(num_contexts: usize, br: &mut BitReader) -> Result<Vec
         Ok(ctx_map)
     }
 }
+
+verif_hook!(entropy_coding_context_map);
diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 9318f4e..987671d 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -605,3 +605,5 @@ pub struct Checkpoint<const N: usize> {
     ans_reader: AnsReader,
     errors: ErrorState,
 }
+
+verif_hook!(entropy_coding_decode);
diff --git a/jxl/src/entropy_coding/huffman.rs b/jxl/src/entropy_coding/huffman.rs
index 00702e8..596ef71 100644
--- a/jxl/src/entropy_coding/huffman.rs
+++ b/jxl/src/entropy_coding/huffman.rs
@@ -561,3 +561,5 @@ mod test {
         );
     }
 }
+
+verif_hook!(entropy_coding_huffman);
diff --git a/jxl/src/entropy_coding/hybrid_uint.rs b/jxl/src/entropy_coding/hybrid_uint.rs
index e6e3de9..5314879 100644
--- a/jxl/src/entropy_coding/hybrid_uint.rs
+++ b/jxl/src/entropy_coding/hybrid_uint.rs
@@ -126,3 +126,5 @@ mod test {
         }
     }
 }
+
+verif_hook!(entropy_coding_hybrid_uint);
diff --git a/jxl/src/features/blending.rs b/jxl/src/features/blending.rs
index 5d432e9..e3df4b7 100644
--- a/jxl/src/features/blending.rs
+++ b/jxl/src/features/blending.rs
@@ -1012,3 +1012,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!(features_blending);
diff --git a/jxl/src/features/noise.rs b/jxl/src/features/noise.rs
index 72f5ab5..e88f5c9 100644
--- a/jxl/src/features/noise.rs
+++ b/jxl/src/features/noise.rs
@@ -39,3 +39,5 @@ impl Noise {
         ((hi - low) * frac_x + low).clamp(0.0, 1.0)
     }
 }
+
+verif_hook!(features_noise);
diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 411ffff..b260db3 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -2050,3 +2050,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!(features_patches);
diff --git a/jxl/src/features/spline.rs b/jxl/src/features/spline.rs
index 6729bca..dd7a0fd 100644
--- a/jxl/src/features/spline.rs
+++ b/jxl/src/features/spline.rs
@@ -2032,3 +2032,5 @@ mod test_splines {
         Ok(())
     }
 }
+
+verif_hook!(features_spline);
diff --git a/jxl/src/frame/adaptive_lf_smoothing.rs b/jxl/src/frame/adaptive_lf_smoothing.rs
index 0e63e92..91e406d 100644
--- a/jxl/src/frame/adaptive_lf_smoothing.rs
+++ b/jxl/src/frame/adaptive_lf_smoothing.rs
@@ -123,3 +123,5 @@ pub fn adaptive_lf_smoothing(
     *lf_image = [smoothed0, smoothed1, smoothed2];
     Ok(())
 }
+
+verif_hook!(frame_adaptive_lf_smoothing);
diff --git a/jxl/src/frame/block_context_map.rs b/jxl/src/frame/block_context_map.rs
index 1f6e537..1376c7a 100644
--- a/jxl/src/frame/block_context_map.rs
+++ b/jxl/src/frame/block_context_map.rs
@@ -153,3 +153,5 @@ impl BlockContextMap {
         self.num_contexts * NON_ZERO_BUCKETS + ZERO_DENSITY_CONTEXT_COUNT * block_context
     }
 }
+
+verif_hook!(frame_block_context_map);
diff --git a/jxl/src/frame/coeff_order.rs b/jxl/src/frame/coeff_order.rs
index fb814ac..a4228e9 100644
--- a/jxl/src/frame/coeff_order.rs
+++ b/jxl/src/frame/coeff_order.rs
@@ -177,3 +177,5 @@ mod tests {
         assert_eq!(order_2x1, COEFF_ORDER_2X1);
     }
 }
+
+verif_hook!(frame_coeff_order);
diff --git a/jxl/src/frame/color_correlation_map.rs b/jxl/src/frame/color_correlation_map.rs
index 22abfe9..6a04a7f 100644
--- a/jxl/src/frame/color_correlation_map.rs
+++ b/jxl/src/frame/color_correlation_map.rs
@@ -92,3 +92,5 @@ impl ColorCorrelationParams {
         self.y_to_b(self.ytob_lf)
     }
 }
+
+verif_hook!(frame_color_correlation_map);
diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 6ba1d1c..adb63a8 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -823,3 +823,5 @@ impl Frame {
         Ok(())
     }
 }
+
+verif_hook!(frame_decode);
diff --git a/jxl/src/frame/group.rs b/jxl/src/frame/group.rs
index dd3daed..d7915cb 100644
--- a/jxl/src/frame/group.rs
+++ b/jxl/src/frame/group.rs
@@ -667,3 +667,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(frame_group);
diff --git a/jxl/src/frame/mod.rs b/jxl/src/frame/mod.rs
index 67a59a2..a831d3f 100644
--- a/jxl/src/frame/mod.rs
+++ b/jxl/src/frame/mod.rs
@@ -415,3 +415,5 @@ impl Frame {
         }
     }
 }
+
+verif_hook!(frame);
diff --git a/jxl/src/frame/modular/buffers.rs b/jxl/src/frame/modular/buffers.rs
index b703a13..9010121 100644
--- a/jxl/src/frame/modular/buffers.rs
+++ b/jxl/src/frame/modular/buffers.rs
@@ -274,3 +274,5 @@ pub fn with_buffers<T>(
     let bufs: Vec<&mut ModularChannel> = guards.iter_mut().map(|g| g.as_mut().unwrap()).collect();
     f(bufs)
 }
+
+verif_hook!(frame_modular_buffers);
diff --git a/jxl/src/frame/modular/decode/bitstream.rs b/jxl/src/frame/modular/decode/bitstream.rs
index 2cb07be..4bb4f81 100644
--- a/jxl/src/frame/modular/decode/bitstream.rs
+++ b/jxl/src/frame/modular/decode/bitstream.rs
@@ -233,3 +233,5 @@ pub(in crate::frame::modular) fn decode_modular_subbitstream(
 
     Ok(())
 }
+
+verif_hook!(frame_modular_decode_bitstream);
diff --git a/jxl/src/frame/modular/decode/channel.rs b/jxl/src/frame/modular/decode/channel.rs
index 6015d3b..464840e 100644
--- a/jxl/src/frame/modular/decode/channel.rs
+++ b/jxl/src/frame/modular/decode/channel.rs
@@ -245,3 +245,5 @@ pub(super) fn decode_modular_channel(
     })?;
     br.check_for_error()
 }
+
+verif_hook!(frame_modular_decode_channel);
diff --git a/jxl/src/frame/modular/decode/common.rs b/jxl/src/frame/modular/decode/common.rs
index 10067b2..9c14c38 100644
--- a/jxl/src/frame/modular/decode/common.rs
+++ b/jxl/src/frame/modular/decode/common.rs
@@ -85,3 +85,5 @@ pub(super) fn precompute_references(
 pub(super) fn make_pixel(dec: i32, mul: u32, guess: i64) -> i32 {
     (guess + (mul as i64) * (dec as i64)) as i32
 }
+
+verif_hook!(frame_modular_decode_common);
diff --git a/jxl/src/frame/modular/decode/specialized_trees.rs b/jxl/src/frame/modular/decode/specialized_trees.rs
index f9b4a74..cbaea2f 100644
--- a/jxl/src/frame/modular/decode/specialized_trees.rs
+++ b/jxl/src/frame/modular/decode/specialized_trees.rs
@@ -576,3 +576,5 @@ pub fn run_on_specialized_tree<F: FnOnce(&mut dyn ModularChannelDecoder) -> Resu
     }
     run(&mut FlatTree::new(inner, ReaderGeneric, wp_state))
 }
+
+verif_hook!(frame_modular_decode_specialized_trees);
diff --git a/jxl/src/frame/modular/flat_tree.rs b/jxl/src/frame/modular/flat_tree.rs
index a0512d2..c2800ec 100644
--- a/jxl/src/frame/modular/flat_tree.rs
+++ b/jxl/src/frame/modular/flat_tree.rs
@@ -160,3 +160,5 @@ impl Tree {
         Ok(flat_nodes)
     }
 }
+
+verif_hook!(frame_modular_flat_tree);
diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 2915378..671264a 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -1120,3 +1120,5 @@ pub fn decode_quant_table(
     }
     Ok(qtable)
 }
+
+verif_hook!(frame_modular);
diff --git a/jxl/src/frame/modular/predict.rs b/jxl/src/frame/modular/predict.rs
index c6309ac..460ad18 100644
--- a/jxl/src/frame/modular/predict.rs
+++ b/jxl/src/frame/modular/predict.rs
@@ -607,3 +607,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!(frame_modular_predict);
diff --git a/jxl/src/frame/modular/transforms/apply_local.rs b/jxl/src/frame/modular/transforms/apply_local.rs
index 563d5f8..6ea87ce 100644
--- a/jxl/src/frame/modular/transforms/apply_local.rs
+++ b/jxl/src/frame/modular/transforms/apply_local.rs
@@ -354,3 +354,5 @@ impl TransformStep {
         Ok(())
     }
 }
+
+verif_hook!(frame_modular_transforms_apply_local);
diff --git a/jxl/src/frame/modular/transforms/meta_apply.rs b/jxl/src/frame/modular/transforms/meta_apply.rs
index b027d1f..5b4a873 100644
--- a/jxl/src/frame/modular/transforms/meta_apply.rs
+++ b/jxl/src/frame/modular/transforms/meta_apply.rs
@@ -725,3 +725,5 @@ pub fn make_grids(
 
     grid_transform_steps
 }
+
+verif_hook!(frame_modular_transforms_meta_apply);
diff --git a/jxl/src/frame/modular/transforms/mod.rs b/jxl/src/frame/modular/transforms/mod.rs
index 5d9c879..c8a01bb 100644
--- a/jxl/src/frame/modular/transforms/mod.rs
+++ b/jxl/src/frame/modular/transforms/mod.rs
@@ -32,3 +32,5 @@ pub enum RctOp {
     AddFirstToThirdAndAvgToSecond = 5,
     YCoCg = 6,
 }
+
+verif_hook!(frame_modular_transforms);
diff --git a/jxl/src/frame/modular/transforms/palette.rs b/jxl/src/frame/modular/transforms/palette.rs
index 702cc9d..c79626c 100644
--- a/jxl/src/frame/modular/transforms/palette.rs
+++ b/jxl/src/frame/modular/transforms/palette.rs
@@ -513,3 +513,5 @@ pub fn do_palette_step_group_row(
     }
     Ok(())
 }
+
+verif_hook!(frame_modular_transforms_palette);
diff --git a/jxl/src/frame/modular/transforms/rct.rs b/jxl/src/frame/modular/transforms/rct.rs
index e77ea0d..6c90cb9 100644
--- a/jxl/src/frame/modular/transforms/rct.rs
+++ b/jxl/src/frame/modular/transforms/rct.rs
@@ -155,3 +155,5 @@ pub fn do_rct_step(buffers: &mut [&mut ModularChannel], op: RctOp, perm: RctPerm
         }
     }
 }
+
+verif_hook!(frame_modular_transforms_rct);
diff --git a/jxl/src/frame/modular/transforms/squeeze.rs b/jxl/src/frame/modular/transforms/squeeze.rs
index 2526224..073eb58 100644
--- a/jxl/src/frame/modular/transforms/squeeze.rs
+++ b/jxl/src/frame/modular/transforms/squeeze.rs
@@ -1318,3 +1318,5 @@ mod tests {
         assert_eq!(h1_odd, h2_even);
     }
 }
+
+verif_hook!(frame_modular_transforms_squeeze);
diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index c1b76a4..3597d35 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -1087,3 +1087,5 @@ impl TransformStepChunk {
         }
     }
 }
+
+verif_hook!(frame_modular_transforms_step);
diff --git a/jxl/src/frame/modular/tree.rs b/jxl/src/frame/modular/tree.rs
index 41c12c3..bc70fef 100644
--- a/jxl/src/frame/modular/tree.rs
+++ b/jxl/src/frame/modular/tree.rs
@@ -389,3 +389,5 @@ impl Tree {
         self.nodes[tree_node]
     }
 }
+
+verif_hook!(frame_modular_tree);
diff --git a/jxl/src/frame/quant_weights.rs b/jxl/src/frame/quant_weights.rs
index acb12ef..f035e7c 100644
--- a/jxl/src/frame/quant_weights.rs
+++ b/jxl/src/frame/quant_weights.rs
@@ -2139,3 +2139,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(frame_quant_weights);
diff --git a/jxl/src/frame/quantizer.rs b/jxl/src/frame/quantizer.rs
index bdef549..5a66983 100644
--- a/jxl/src/frame/quantizer.rs
+++ b/jxl/src/frame/quantizer.rs
@@ -83,3 +83,5 @@ impl QuantizerParams {
         self.inv_global_scale() / self.quant_lf as f32
     }
 }
+
+verif_hook!(frame_quantizer);
diff --git a/jxl/src/headers/bit_depth.rs b/jxl/src/headers/bit_depth.rs
index 57d3fe1..95b548a 100644
--- a/jxl/src/headers/bit_depth.rs
+++ b/jxl/src/headers/bit_depth.rs
@@ -105,3 +105,5 @@ impl BitDepth {
         }
     }
 }
+
+verif_hook!(headers_bit_depth);
diff --git a/jxl/src/headers/color_encoding.rs b/jxl/src/headers/color_encoding.rs
index 608e80f..38bb3dc 100644
--- a/jxl/src/headers/color_encoding.rs
+++ b/jxl/src/headers/color_encoding.rs
@@ -206,3 +206,5 @@ impl ColorEncoding {
         }
     }
 }
+
+verif_hook!(headers_color_encoding);
diff --git a/jxl/src/headers/encodings.rs b/jxl/src/headers/encodings.rs
index b06c4dd..be8b6b0 100644
--- a/jxl/src/headers/encodings.rs
+++ b/jxl/src/headers/encodings.rs
@@ -405,3 +405,5 @@ impl UnconditionalCoder<()> for Extensions {
         Ok(Extensions {})
     }
 }
+
+verif_hook!(headers_encodings);
diff --git a/jxl/src/headers/extra_channels.rs b/jxl/src/headers/extra_channels.rs
index a164596..ad7c511 100644
--- a/jxl/src/headers/extra_channels.rs
+++ b/jxl/src/headers/extra_channels.rs
@@ -99,3 +99,5 @@ impl ExtraChannelInfo {
         }
     }
 }
+
+verif_hook!(headers_extra_channels);
diff --git a/jxl/src/headers/frame_header.rs b/jxl/src/headers/frame_header.rs
index 9a7a239..4474a6c 100644
--- a/jxl/src/headers/frame_header.rs
+++ b/jxl/src/headers/frame_header.rs
@@ -909,3 +909,5 @@ mod test_frame_header {
         assert_eq!(frame_header.name.len(), 13);
     }
 }
+
+verif_hook!(headers_frame_header);
diff --git a/jxl/src/headers/image_metadata.rs b/jxl/src/headers/image_metadata.rs
index 3d11270..dc37589 100644
--- a/jxl/src/headers/image_metadata.rs
+++ b/jxl/src/headers/image_metadata.rs
@@ -246,3 +246,5 @@ impl ImageMetadata {
         Ok(())
     }
 }
+
+verif_hook!(headers_image_metadata);
diff --git a/jxl/src/headers/modular.rs b/jxl/src/headers/modular.rs
index 842736e..94d2428 100644
--- a/jxl/src/headers/modular.rs
+++ b/jxl/src/headers/modular.rs
@@ -147,3 +147,5 @@ pub struct GroupHeader {
     #[size_coder(implicit(u2S(0, 1, Bits(4) + 2, Bits(8) + 18)))]
     pub transforms: Vec<Transform>,
 }
+
+verif_hook!(headers_modular);
diff --git a/jxl/src/headers/permutation.rs b/jxl/src/headers/permutation.rs
index b268e3f..7a4be32 100644
--- a/jxl/src/headers/permutation.rs
+++ b/jxl/src/headers/permutation.rs
@@ -352,3 +352,5 @@ mod test {
         assert!(result.is_err());
     }
 }
+
+verif_hook!(headers_permutation);
diff --git a/jxl/src/headers/size.rs b/jxl/src/headers/size.rs
index 74989e8..12a8bd1 100644
--- a/jxl/src/headers/size.rs
+++ b/jxl/src/headers/size.rs
@@ -139,3 +139,5 @@ impl Preview {
         self.compute_xsize().unwrap()
     }
 }
+
+verif_hook!(headers_size);
diff --git a/jxl/src/headers/toc.rs b/jxl/src/headers/toc.rs
index 91cc8f9..32ae994 100644
--- a/jxl/src/headers/toc.rs
+++ b/jxl/src/headers/toc.rs
@@ -168,3 +168,5 @@ mod test {
         });
     }
 }
+
+verif_hook!(headers_toc);
diff --git a/jxl/src/headers/transform_data.rs b/jxl/src/headers/transform_data.rs
index 0a46346..ff492ff 100644
--- a/jxl/src/headers/transform_data.rs
+++ b/jxl/src/headers/transform_data.rs
@@ -343,3 +343,5 @@ pub struct CustomTransformData {
     #[default(DEFAULT_KERN_8)]
     pub weights8: [f32; 210],
 }
+
+verif_hook!(headers_transform_data);
diff --git a/jxl/src/icc/header.rs b/jxl/src/icc/header.rs
index bdf76ad..dfc349f 100644
--- a/jxl/src/icc/header.rs
+++ b/jxl/src/icc/header.rs
@@ -49,3 +49,5 @@ pub(super) fn read_header(data_stream: &mut IccStream, output_size: u64) -> Resu
 
     Ok(profile)
 }
+
+verif_hook!(icc_header);
diff --git a/jxl/src/icc/mod.rs b/jxl/src/icc/mod.rs
index 3b92c48..0d5ebfa 100644
--- a/jxl/src/icc/mod.rs
+++ b/jxl/src/icc/mod.rs
@@ -206,3 +206,5 @@ impl IncrementalIccReader {
         Ok(profile)
     }
 }
+
+verif_hook!(icc);
diff --git a/jxl/src/icc/stream.rs b/jxl/src/icc/stream.rs
index 0de64e9..31883dd 100644
--- a/jxl/src/icc/stream.rs
+++ b/jxl/src/icc/stream.rs
@@ -116,3 +116,5 @@ impl IccStream {
         }
     }
 }
+
+verif_hook!(icc_stream);
diff --git a/jxl/src/icc/tag.rs b/jxl/src/icc/tag.rs
index e060856..0f40624 100644
--- a/jxl/src/icc/tag.rs
+++ b/jxl/src/icc/tag.rs
@@ -248,3 +248,5 @@ pub(super) fn read_single_command(
 
     Ok(())
 }
+
+verif_hook!(icc_tag);
diff --git a/jxl/src/image/data_type.rs b/jxl/src/image/data_type.rs
index 94f6b93..a71bff6 100644
--- a/jxl/src/image/data_type.rs
+++ b/jxl/src/image/data_type.rs
@@ -152,3 +152,5 @@ unsafe impl ImageDataType for crate::util::f16 {
         Self::from_f64(Uniform::new(0.0f32, 1.0f32).unwrap().sample(rng) as f64)
     }
 }
+
+verif_hook!(image_data_type);
diff --git a/jxl/src/image/internal.rs b/jxl/src/image/internal.rs
index 0ae5245..68ed4b2 100644
--- a/jxl/src/image/internal.rs
+++ b/jxl/src/image/internal.rs
@@ -342,3 +342,5 @@ impl<const S: usize> DistinctRowsIndexes for [usize; S] {
         })
     }
 }
+
+verif_hook!(image_internal);
diff --git a/jxl/src/image/output_buffer.rs b/jxl/src/image/output_buffer.rs
index c683888..688c86c 100644
--- a/jxl/src/image/output_buffer.rs
+++ b/jxl/src/image/output_buffer.rs
@@ -118,3 +118,5 @@ impl<'a> JxlOutputBuffer<'a> {
         }
     }
 }
+
+verif_hook!(image_output_buffer);
diff --git a/jxl/src/image/raw.rs b/jxl/src/image/raw.rs
index 9912576..be036cc 100644
--- a/jxl/src/image/raw.rs
+++ b/jxl/src/image/raw.rs
@@ -166,3 +166,5 @@ impl Debug for RawImageRectMut<'_> {
         )
     }
 }
+
+verif_hook!(image_raw);
diff --git a/jxl/src/image/rect.rs b/jxl/src/image/rect.rs
index 18cb868..bcb2e74 100644
--- a/jxl/src/image/rect.rs
+++ b/jxl/src/image/rect.rs
@@ -64,3 +64,5 @@ impl Rect {
             && other.end().1 > self.origin.1
     }
 }
+
+verif_hook!(image_rect);
diff --git a/jxl/src/image/typed.rs b/jxl/src/image/typed.rs
index f0b14c2..78e5ff9 100644
--- a/jxl/src/image/typed.rs
+++ b/jxl/src/image/typed.rs
@@ -259,3 +259,5 @@ impl<T: ImageDataType> Debug for ImageRectMut<'_, T> {
         )
     }
 }
+
+verif_hook!(image_typed);
diff --git a/jxl/src/lib.rs b/jxl/src/lib.rs
index 3fd8fae..72f6ed1 100644
--- a/jxl/src/lib.rs
+++ b/jxl/src/lib.rs
@@ -4,6 +4,30 @@
 // license that can be found in the LICENSE file.
 
 #![deny(unsafe_code)]
+#![allow(unexpected_cfgs)]
+
+// Verification hook: with `--cfg jxl_verif` every `verif_hook!(name)` becomes a child module holding
+// `$JXL_VERIF_DIR/name.rs` (contracts and proof harnesses). Without that flag it expands to nothing.
+#[cfg(jxl_verif)]
+macro_rules! verif_hook {
+    ($name:ident) => {
+        #[allow(unsafe_code, unused, dead_code, clippy::all)]
+        pub mod $name {
+            use super::*;
+            include!(concat!(
+                env!("JXL_VERIF_DIR"),
+                "/",
+                stringify!($name),
+                ".rs"
+            ));
+        }
+    };
+}
+#[cfg(not(jxl_verif))]
+macro_rules! verif_hook {
+    ($name:ident) => {};
+}
+
 pub mod api;
 pub mod bit_reader;
 pub mod color;
@@ -26,3 +50,5 @@ const BLOCK_DIM: usize = 8;
 const BLOCK_SIZE: usize = BLOCK_DIM * BLOCK_DIM;
 #[allow(clippy::excessive_precision)]
 const MIN_SIGMA: f32 = -3.90524291751269967465540850526868;
+
+verif_hook!(verif);
diff --git a/jxl/src/render/buffer_splitter.rs b/jxl/src/render/buffer_splitter.rs
index 2b5f2df..8bb31f9 100644
--- a/jxl/src/render/buffer_splitter.rs
+++ b/jxl/src/render/buffer_splitter.rs
@@ -418,3 +418,5 @@ mod tests {
         });
     }
 }
+
+verif_hook!(render_buffer_splitter);
diff --git a/jxl/src/render/builder.rs b/jxl/src/render/builder.rs
index 7ba62ba..82e56c6 100644
--- a/jxl/src/render/builder.rs
+++ b/jxl/src/render/builder.rs
@@ -311,3 +311,5 @@ impl<Pipeline: RenderPipeline> RenderPipelineBuilder<Pipeline> {
         Ok(Box::new(Pipeline::new_from_shared(self.shared)?))
     }
 }
+
+verif_hook!(render_builder);
diff --git a/jxl/src/render/channels.rs b/jxl/src/render/channels.rs
index 0d81cb8..ff66471 100644
--- a/jxl/src/render/channels.rs
+++ b/jxl/src/render/channels.rs
@@ -156,3 +156,5 @@ impl<'a, T> std::ops::IndexMut<usize> for ChannelsMut<'a, T> {
         &mut self.row_data[start..start + self.rows_per_channel]
     }
 }
+
+verif_hook!(render_channels);
diff --git a/jxl/src/render/internal.rs b/jxl/src/render/internal.rs
index 57f0885..9ef786e 100644
--- a/jxl/src/render/internal.rs
+++ b/jxl/src/render/internal.rs
@@ -254,3 +254,5 @@ pub trait RunInOutStage<Buffer: PipelineBuffer>: InOutStage {
         state: Option<&mut ErasedLocalState>,
     );
 }
+
+verif_hook!(render_internal);
diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index 322719f..064dd7c 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -342,3 +342,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!(render_low_memory_pipeline_group_scheduler);
diff --git a/jxl/src/render/low_memory_pipeline/helpers.rs b/jxl/src/render/low_memory_pipeline/helpers.rs
index cf8169a..51c5457 100644
--- a/jxl/src/render/low_memory_pipeline/helpers.rs
+++ b/jxl/src/render/low_memory_pipeline/helpers.rs
@@ -43,3 +43,5 @@ pub(super) fn get_distinct_indices<'a, T>(
         .map(|x| std::mem::take(x).expect("Not all elements were found"))
         .collect()
 }
+
+verif_hook!(render_low_memory_pipeline_helpers);
diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 780754a..e25b665 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -481,3 +481,5 @@ impl RenderPipeline for LowMemoryRenderPipeline {
         &self.shared.channel_is_used
     }
 }
+
+verif_hook!(render_low_memory_pipeline);
diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index 4f28744..c41a620 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -606,3 +606,5 @@ impl LowMemoryRenderPipeline {
         Ok(())
     }
 }
+
+verif_hook!(render_low_memory_pipeline_render_group);
diff --git a/jxl/src/render/low_memory_pipeline/row_buffers.rs b/jxl/src/render/low_memory_pipeline/row_buffers.rs
index 69641c7..a637ebe 100644
--- a/jxl/src/render/low_memory_pipeline/row_buffers.rs
+++ b/jxl/src/render/low_memory_pipeline/row_buffers.rs
@@ -118,3 +118,5 @@ impl RowBuffer {
         CACHE_LINE_BYTE_SIZE
     }
 }
+
+verif_hook!(render_low_memory_pipeline_row_buffers);
diff --git a/jxl/src/render/low_memory_pipeline/save/identity.rs b/jxl/src/render/low_memory_pipeline/save/identity.rs
index 478f5bd..5e1f521 100644
--- a/jxl/src/render/low_memory_pipeline/save/identity.rs
+++ b/jxl/src/render/low_memory_pipeline/save/identity.rs
@@ -275,3 +275,5 @@ pub(super) fn store(
         _ => 0,
     }
 }
+
+verif_hook!(render_low_memory_pipeline_save_identity);
diff --git a/jxl/src/render/low_memory_pipeline/save/mod.rs b/jxl/src/render/low_memory_pipeline/save/mod.rs
index d5b1e73..1a48fbc 100644
--- a/jxl/src/render/low_memory_pipeline/save/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/save/mod.rs
@@ -139,3 +139,5 @@ impl SaveStage {
         Ok(())
     }
 }
+
+verif_hook!(render_low_memory_pipeline_save);
diff --git a/jxl/src/render/save.rs b/jxl/src/render/save.rs
index 7118237..b568361 100644
--- a/jxl/src/render/save.rs
+++ b/jxl/src/render/save.rs
@@ -96,3 +96,5 @@ impl std::fmt::Display for SaveStage {
         )
     }
 }
+
+verif_hook!(render_save);
diff --git a/jxl/src/render/simple_pipeline/extend.rs b/jxl/src/render/simple_pipeline/extend.rs
index 7f3f764..770626c 100644
--- a/jxl/src/render/simple_pipeline/extend.rs
+++ b/jxl/src/render/simple_pipeline/extend.rs
@@ -91,3 +91,5 @@ impl ExtendToImageDimensionsStage {
         }
     }
 }
+
+verif_hook!(render_simple_pipeline_extend);
diff --git a/jxl/src/render/simple_pipeline/save.rs b/jxl/src/render/simple_pipeline/save.rs
index 173b951..64c8a51 100644
--- a/jxl/src/render/simple_pipeline/save.rs
+++ b/jxl/src/render/simple_pipeline/save.rs
@@ -244,3 +244,5 @@ mod test {
         })
     }
 }
+
+verif_hook!(render_simple_pipeline_save);
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index fbb54ec..6ac3e0e 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -193,3 +193,5 @@ mod test {
         )
     }
 }
+
+verif_hook!(render_stages_blending);
diff --git a/jxl/src/render/stages/chroma_upsample.rs b/jxl/src/render/stages/chroma_upsample.rs
index dff0533..4264113 100644
--- a/jxl/src/render/stages/chroma_upsample.rs
+++ b/jxl/src/render/stages/chroma_upsample.rs
@@ -236,3 +236,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(render_stages_chroma_upsample);
diff --git a/jxl/src/render/stages/convert.rs b/jxl/src/render/stages/convert.rs
index dd754aa..f33c985 100644
--- a/jxl/src/render/stages/convert.rs
+++ b/jxl/src/render/stages/convert.rs
@@ -1001,3 +1001,5 @@ mod test {
         }
     }
 }
+
+verif_hook!(render_stages_convert);
diff --git a/jxl/src/render/stages/extend.rs b/jxl/src/render/stages/extend.rs
index 62576a4..0a30967 100644
--- a/jxl/src/render/stages/extend.rs
+++ b/jxl/src/render/stages/extend.rs
@@ -112,3 +112,5 @@ mod test {
         )
     }
 }
+
+verif_hook!(render_stages_extend);
diff --git a/jxl/src/render/stages/nearest_neighbor.rs b/jxl/src/render/stages/nearest_neighbor.rs
index b866b08..79589b8 100644
--- a/jxl/src/render/stages/nearest_neighbor.rs
+++ b/jxl/src/render/stages/nearest_neighbor.rs
@@ -98,3 +98,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(render_stages_nearest_neighbor);
diff --git a/jxl/src/render/stages/upsample.rs b/jxl/src/render/stages/upsample.rs
index 7376385..93a26ff 100644
--- a/jxl/src/render/stages/upsample.rs
+++ b/jxl/src/render/stages/upsample.rs
@@ -850,3 +850,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(render_stages_upsample);
diff --git a/jxl/src/util/bits.rs b/jxl/src/util/bits.rs
index fe578ea..59d11c9 100644
--- a/jxl/src/util/bits.rs
+++ b/jxl/src/util/bits.rs
@@ -21,3 +21,5 @@ mod test {
         assert_eq!(value_of_lowest_1_bit(0), 0);
     }
 }
+
+verif_hook!(util_bits);
diff --git a/jxl/src/util/concat_slice.rs b/jxl/src/util/concat_slice.rs
index 39f016d..e349415 100644
--- a/jxl/src/util/concat_slice.rs
+++ b/jxl/src/util/concat_slice.rs
@@ -121,3 +121,5 @@ mod test {
         assert_eq!(&v, &[0, 1, 2, 3, 4, 5, 6, 7]);
     }
 }
+
+verif_hook!(util_concat_slice);
diff --git a/jxl/src/util/fast_math.rs b/jxl/src/util/fast_math.rs
index c360428..bc187e7 100644
--- a/jxl/src/util/fast_math.rs
+++ b/jxl/src/util/fast_math.rs
@@ -243,3 +243,5 @@ mod test {
         });
     }
 }
+
+verif_hook!(util_fast_math);
diff --git a/jxl/src/util/float16.rs b/jxl/src/util/float16.rs
index 711c37c..98ea9e7 100644
--- a/jxl/src/util/float16.rs
+++ b/jxl/src/util/float16.rs
@@ -309,3 +309,5 @@ mod tests {
         assert_eq!(h.to_be_bytes(), [0x12, 0x34]);
     }
 }
+
+verif_hook!(util_float16);
diff --git a/jxl/src/util/linalg.rs b/jxl/src/util/linalg.rs
index 23524cd..ec72d08 100644
--- a/jxl/src/util/linalg.rs
+++ b/jxl/src/util/linalg.rs
@@ -138,3 +138,5 @@ mod test {
         }
     }
 }
+
+verif_hook!(util_linalg);
diff --git a/jxl/src/util/log2.rs b/jxl/src/util/log2.rs
index 6f8ba32..5653fd1 100644
--- a/jxl/src/util/log2.rs
+++ b/jxl/src/util/log2.rs
@@ -83,3 +83,5 @@ mod test {
         assert_eq!(2, 4usize.ceil_log2());
     }
 }
+
+verif_hook!(util_log2);
diff --git a/jxl/src/util/mirror.rs b/jxl/src/util/mirror.rs
index 656d7e5..4427235 100644
--- a/jxl/src/util/mirror.rs
+++ b/jxl/src/util/mirror.rs
@@ -17,3 +17,5 @@ pub fn mirror(mut v: isize, s: usize) -> usize {
         }
     }
 }
+
+verif_hook!(util_mirror);
diff --git a/jxl/src/util/ndarray.rs b/jxl/src/util/ndarray.rs
index 5b2e836..7fd71c1 100644
--- a/jxl/src/util/ndarray.rs
+++ b/jxl/src/util/ndarray.rs
@@ -22,3 +22,5 @@ macro_rules! slice {
     };
 }
 pub(crate) use slice;
+
+verif_hook!(util_ndarray);
diff --git a/jxl/src/util/shift_right_ceil.rs b/jxl/src/util/shift_right_ceil.rs
index 06be846..e29771f 100644
--- a/jxl/src/util/shift_right_ceil.rs
+++ b/jxl/src/util/shift_right_ceil.rs
@@ -40,3 +40,5 @@ mod test {
         assert_eq!(2u32, 9u32.shrc(3u8));
     }
 }
+
+verif_hook!(util_shift_right_ceil);
diff --git a/jxl/src/util/smallvec.rs b/jxl/src/util/smallvec.rs
index c314196..5629d60 100644
--- a/jxl/src/util/smallvec.rs
+++ b/jxl/src/util/smallvec.rs
@@ -385,3 +385,5 @@ mod tests {
         });
     }
 }
+
+verif_hook!(util_smallvec);
diff --git a/jxl/src/util/vec_helpers.rs b/jxl/src/util/vec_helpers.rs
index e9af8c8..a1acc6d 100644
--- a/jxl/src/util/vec_helpers.rs
+++ b/jxl/src/util/vec_helpers.rs
@@ -31,3 +31,5 @@ impl NewWithCapacity for String {
         Ok(s)
     }
 }
+
+verif_hook!(util_vec_helpers);
diff --git a/jxl/src/util/xorshift128plus.rs b/jxl/src/util/xorshift128plus.rs
index bf55805..8ff1529 100644
--- a/jxl/src/util/xorshift128plus.rs
+++ b/jxl/src/util/xorshift128plus.rs
@@ -731,3 +731,5 @@ mod test {
         }
     }
 }
+
+verif_hook!(util_xorshift128plus);
-- 
2.43.0


From 4edf1a9b71306766a601fc022406ab2472522cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 02/32] fix: BitReader::split_at: over-reads of the split-off
 reader are detected at its own end

---
 jxl/src/bit_reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jxl/src/bit_reader.rs b/jxl/src/bit_reader.rs
index c6ba5ef..ea9e479 100644
--- a/jxl/src/bit_reader.rs
+++ b/jxl/src/bit_reader.rs
@@ -237,6 +237,8 @@ impl<'a> BitReader<'a> {
         self.jump_to_byte_boundary()?;
         let mut ret = Self { ..*self };
         self.skip_bits(n * 8)?;
+        // Reads past the end of the returned bitreader must be detected at *its* end.
+        ret.initial_bits = ret.total_bits_read + n * 8;
         let bytes_in_buf = ret.bits_in_buf / 8;
         if n > bytes_in_buf {
             // Prevent the returned bitreader from over-reading.
-- 
2.43.0


From 962f4cc5bace7e18ce72d051ac58111e758ddf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:24 +0000
Subject: [PATCH 03/32] fix: f16 <-> f32 conversion of subnormal half-floats

---
 jxl/src/util/float16.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jxl/src/util/float16.rs b/jxl/src/util/float16.rs
index 98ea9e7..42bd0b6 100644
--- a/jxl/src/util/float16.rs
+++ b/jxl/src/util/float16.rs
@@ -54,7 +54,8 @@ impl f16 {
                     e += 1;
                 }
                 m &= 0x3FF; // Remove the implicit leading 1
-                let new_exp = 127 - 15 - e; // Rebias: f16 bias=15, f32 bias=127
+                // f16 denormal exponent is -14 (not -15), adjust by shift count
+                let new_exp = 127 - 14 - e;
                 (sign << 31) | (new_exp << 23) | (m << 13)
             }
         } else if exp == 31 {
@@ -98,13 +99,22 @@ impl f16 {
         } else {
             let unbiased = exp - 127;
 
-            if unbiased < -24 {
+            if unbiased < -25 {
                 // Too small, underflow to zero
                 sign << 15
             } else if unbiased < -14 {
                 // Denormal f16
-                let shift = (-14 - unbiased) as u32;
-                let m = ((mant | 0x0080_0000) >> (shift + 14)) as u16;
+                let shift = (-14 - unbiased + 13) as u32;
+                let full = mant | 0x0080_0000;
+                let m = (full >> shift) as u16;
+                // Round to nearest, ties to even
+                let round_bit = (full >> (shift - 1)) & 1;
+                let sticky = full & ((1 << (shift - 1)) - 1);
+                let m = if round_bit == 1 && (sticky != 0 || (m & 1) == 1) {
+                    m + 1
+                } else {
+                    m
+                };
                 (sign << 15) | m
             } else if unbiased > 15 {
                 // Overflow to infinity
-- 
2.43.0


From 648c47eb93f876be291d254f724b4752a6b8a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 04/32] verif: cfg(kani, jxl_verif)-guarded include point for a
 compact Error enum

---
 jxl/src/error.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index b61d0fa..c84b036 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -12,6 +12,11 @@ use crate::entropy_coding::huffman::HUFFMAN_MAX_BITS;
 use crate::features::spline::Point;
 use crate::image::DataTypeTag;
 
+// Verification builds replace the (very large) enum by a compact one generated from it.
+#[cfg(all(kani, jxl_verif))]
+include!(concat!(env!("JXL_VERIF_DIR"), "/error_enum.rs"));
+
+#[cfg(not(all(kani, jxl_verif)))]
 #[derive(Error, Debug)]
 #[non_exhaustive]
 pub enum Error {
-- 
2.43.0


From f535c208bbcba7e835adf71fe20a18ccbe524c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:13 +0000
Subject: [PATCH 05/32] fix: ANS distributions: a repeat range may start right
 where the previous one ends

---
 jxl/src/entropy_coding/ans.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/jxl/src/entropy_coding/ans.rs b/jxl/src/entropy_coding/ans.rs
index 5a6da7e..a289644 100644
--- a/jxl/src/entropy_coding/ans.rs
+++ b/jxl/src/entropy_coding/ans.rs
@@ -152,20 +152,21 @@ impl AnsHistogram {
         let mut acc = 0;
         let mut prev_dist = 0u16;
         for (idx, code) in dist.iter_mut().enumerate() {
+            // The next range may start right where this one ends.
+            if repeat_range_idx < repeat_ranges.len() && repeat_ranges[repeat_range_idx].end == idx
+            {
+                repeat_range_idx += 1;
+            }
             if repeat_range_idx < repeat_ranges.len()
                 && repeat_ranges[repeat_range_idx].start <= idx
             {
-                if repeat_ranges[repeat_range_idx].end == idx {
-                    repeat_range_idx += 1;
-                } else {
-                    *code = prev_dist;
-                    acc += *code;
-                    // dist[omit_pos] > 0
-                    if acc >= SUM_PROBS {
-                        return Err(Error::InvalidAnsHistogram);
-                    }
-                    continue;
+                *code = prev_dist;
+                acc += *code;
+                // dist[omit_pos] > 0
+                if acc >= SUM_PROBS {
+                    return Err(Error::InvalidAnsHistogram);
                 }
+                continue;
             }
 
             if *code == 0 {
-- 
2.43.0


From 9f48330310232028a2818c347e80f90bfaa5fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:22 +0000
Subject: [PATCH 06/32] fix: simple prefix codes: adjacent repeated symbols are
 rejected like any other repetition

---
 jxl/src/entropy_coding/huffman.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/entropy_coding/huffman.rs b/jxl/src/entropy_coding/huffman.rs
index 596ef71..86111c1 100644
--- a/jxl/src/entropy_coding/huffman.rs
+++ b/jxl/src/entropy_coding/huffman.rs
@@ -82,7 +82,7 @@ impl Table {
             }
             *symbol = sym as u16;
         }
-        if (0..num_symbols - 1).any(|i| symbols[..i].contains(&symbols[i + 1])) {
+        if (0..num_symbols - 1).any(|i| symbols[..=i].contains(&symbols[i + 1])) {
             return Err(Error::InvalidHuffman);
         }
 
-- 
2.43.0


From b02d5485a8f3eb7101a55eac8a223617adcb0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 07/32] fix: SymbolReader::restore without progress since the
 checkpoint leaves the LZ77 window alone

---
 jxl/src/entropy_coding/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 987671d..222dd54 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -463,7 +463,8 @@ impl SymbolReader {
 
                 let start = (num_decoded & Lz77State::WINDOW_MASK) as usize;
                 let end = ((num_decoded + num_rewind) & Lz77State::WINDOW_MASK) as usize;
-                if start < end {
+                // Nothing to put back (`start == end`) when no symbol was pushed since the checkpoint.
+                if start <= end {
                     lz77_state.window[start..end].copy_from_slice(rewind_window);
                 } else {
                     let window_first = &mut lz77_state.window[start..];
-- 
2.43.0


From 0ae70cad569ebc8533b603056f0ba661c06fed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 08/32] fix: simple context maps with unused histograms are
 rejected like entropy-coded ones

---
 jxl/src/entropy_coding/context_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jxl/src/entropy_coding/context_map.rs b/jxl/src/entropy_coding/context_map.rs
index a955c72..3f605b1 100644
--- a/jxl/src/entropy_coding/context_map.rs
+++ b/jxl/src/entropy_coding/context_map.rs
@@ -45,9 +45,11 @@ pub fn decode_context_map(num_contexts: usize, br: &mut BitReader) -> Result<Vec
     if is_simple {
         let bits_per_entry = br.read(2)? as usize;
         if bits_per_entry != 0 {
-            (0..num_contexts)
+            let ctx_map: Vec<u8> = (0..num_contexts)
                 .map(|_| Ok(br.read(bits_per_entry)? as u8))
-                .collect()
+                .collect::<Result<_, Error>>()?;
+            verify_context_map(&ctx_map[..])?;
+            Ok(ctx_map)
         } else {
             Ok(vec![0u8; num_contexts])
         }
-- 
2.43.0


From cff147619c4ffb2f1890d637c6c8f994770313be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 09/32] fix: box checkpoints inside a codestream box remember
 how much of the box is left

---
 jxl/src/api/inner/box_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index a932394..64ead83 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -105,6 +105,7 @@ impl BoxParser {
             }
             let overflow = codestream_pos - start;
             b.file_position += overflow;
+            b.codestream_left = b.codestream_left.map(|x| x.saturating_sub(overflow));
             b.consumed_codestream = codestream_pos;
             Ok(Some(b))
         }
-- 
2.43.0


From 846215b17c2c2758569497e6c64ae609e1585879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 10/32] fix: empty codestream boxes end the codestream and hand
 over to buffered boxes like any other

---
 jxl/src/api/inner/box_parser.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 64ead83..163f0a3 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -259,8 +259,17 @@ impl BoxParser {
 
     fn advance_to_codestream(&mut self, input: &mut dyn JxlBitstreamInput) -> Result<()> {
         loop {
+            match self.injected_jxlp() {
+                Some(b) if b.consumed < b.data.len() => return Ok(()),
+                Some(_) => {
+                    self.check_ooo_jxlp_done();
+                    continue;
+                }
+                None => {}
+            }
             match self.state {
-                ParseState::Codestream(Some(0)) => self.state = ParseState::BoxNeeded(8),
+                // An empty box, or one that was read until its end.
+                ParseState::Codestream(Some(0)) => self.mark_codestream_read(0),
                 ParseState::Complete | ParseState::Codestream(_) => return Ok(()),
                 ParseState::SignatureNeeded => {
                     let codestream_signature_len = JxlSignatureType::Codestream.signature().len();
@@ -462,11 +471,10 @@ impl<'a> CodestreamInput<'a> {
     // The methods below have the same semantics as the methods in JxlBitstreamInput.
 
     pub(super) fn available_bytes(&mut self) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             return Ok(b.data.len() - b.consumed);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -476,6 +484,7 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn read(&mut self, buf: &mut [IoSliceMut]) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let mut r = &b.data[b.consumed..];
             let n = r.read_vectored(buf)?;
@@ -483,8 +492,6 @@ impl<'a> CodestreamInput<'a> {
             self.box_parser.check_ooo_jxlp_done();
             return Ok(n);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -511,14 +518,13 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn skip(&mut self, amount: usize) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let n = (b.data.len() - b.consumed).min(amount);
             b.consumed += n;
             self.box_parser.check_ooo_jxlp_done();
             return Ok(n);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
-- 
2.43.0


From bb504be123d3d9499aabd7632ba1b8c218555a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 11/32] fix: input skip reports only the bytes it skipped and
 never moves past the end or backwards

---
 jxl/src/api/input.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index 99653f0..1294f61 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -26,7 +26,10 @@ pub trait JxlBitstreamInput {
         let mut skipped = 0;
         while bytes > 0 {
             let num = bytes.min(BUF_SIZE);
-            self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            let num = self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            if num == 0 {
+                break;
+            }
             bytes -= num;
             skipped += num;
         }
@@ -63,9 +66,10 @@ impl<R: Read + Seek> JxlBitstreamInput for BufReader<R> {
     }
 
     fn skip(&mut self, bytes: usize) -> Result<usize, Error> {
-        let cur = self.stream_position()?;
-        self.seek(SeekFrom::Current(bytes as i64))
-            .map(|x| x.saturating_sub(cur) as usize)
+        // Seeking past the end of the input (or, for large values, before its start) would succeed.
+        let num = bytes.min(JxlBitstreamInput::available_bytes(self)?);
+        self.seek_relative(num as i64)?;
+        Ok(num)
     }
 }
 
-- 
2.43.0


From 0a2f3d4fb7011e0e21ec0b7f69dee25969c310cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 12/32] fix: vectored codestream reads at the end of the input
 do not run past a buffer

---
 jxl/src/api/inner/box_parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 163f0a3..4dfa822 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -508,10 +508,15 @@ impl<'a> CodestreamInput<'a> {
                 upper += 1;
             }
             let n = self.box_parser.read_inner(self.input, &mut buf[..upper])?;
-            let left = (limit - n as u64) as usize;
-            n + self
-                .box_parser
-                .read_inner(self.input, &mut [IoSliceMut::new(&mut buf[upper][..left])])?
+            if (n as u64) < cumsum {
+                // The input ended before the buffers that fit entirely were full.
+                n
+            } else {
+                let left = (limit - cumsum) as usize;
+                n + self
+                    .box_parser
+                    .read_inner(self.input, &mut [IoSliceMut::new(&mut buf[upper][..left])])?
+            }
         };
         self.box_parser.mark_codestream_read(n);
         Ok(n)
-- 
2.43.0


From b263114dc97ca366ec8ec95a0b75307983c5bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 13/32] fix: out-of-order boxes are buffered from what was
 already read ahead, without padding or losing data

---
 jxl/src/api/inner/box_parser.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 4dfa822..515dec0 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -308,30 +308,26 @@ impl BoxParser {
                     }
                     // Temporarily take the buffer out of the jxlp state to make the borrow checker happy.
                     let mut buf = self.ooo_jxlp_buffer.remove(&id).unwrap();
-                    let mut total = 0;
-                    loop {
-                        let space = buf.data.len().max(1024).min(input.available_bytes()?) as u64;
-                        let space = count.map(|x| (x - total).min(space)).unwrap_or(space) as usize;
-                        if space == 0 {
-                            break;
+                    // Never allocate much more than what was already received.
+                    let cur = buf.data.len();
+                    let space = cur.max(1024) as u64;
+                    let space = count.map(|x| x.min(space)).unwrap_or(space) as usize;
+                    let n = match buf.data.try_reserve(space) {
+                        Err(e) => Err(e.into()),
+                        Ok(()) => {
+                            buf.data.resize(cur + space, 0);
+                            self.read_inner(input, &mut [IoSliceMut::new(&mut buf.data[cur..])])
                         }
-                        buf.data.try_reserve(space)?;
-                        let cur = buf.data.len();
-                        buf.data.resize(cur + space, 0);
-                        let n =
-                            self.read_inner(input, &mut [IoSliceMut::new(&mut buf.data[cur..])])?;
-                        if n == 0 {
-                            break;
-                        }
-                        total += n as u64;
-                    }
+                    };
+                    buf.data.truncate(cur + *n.as_ref().unwrap_or(&0));
                     self.ooo_jxlp_buffer.insert(id, buf);
-                    if total == 0 {
+                    let n = n?;
+                    if n == 0 {
                         return Err(Error::OutOfBounds(
                             count.map(|x| x.min(usize::MAX as u64)).unwrap_or(1) as usize,
                         ));
                     }
-                    self.state = ParseState::OOOJxlp(id, count.map(|x| x - total));
+                    self.state = ParseState::OOOJxlp(id, count.map(|x| x - n as u64));
                 }
                 ParseState::BoxNeeded(min_size) => self.parse_box(input, min_size)?,
             }
-- 
2.43.0


From 0299dc0427c91ba3078dbe9ffbf71dcd183df54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 14/32] fix: box positions stay exact after buffered
 out-of-order boxes and codestreams that end early

---
 jxl/src/api/inner/box_parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 515dec0..91cf24d 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -112,7 +112,12 @@ impl BoxParser {
     }
 
     pub(super) fn total_bytes_consumed(&self, codestream_bytes_consumed: u64) -> u64 {
-        let (start, b) = self.codestream_pos_to_box.last_key_value().unwrap();
+        // The last box may start after the end of the codestream.
+        let (start, b) = self
+            .codestream_pos_to_box
+            .range(..=codestream_bytes_consumed)
+            .last()
+            .unwrap();
         b.file_position + (codestream_bytes_consumed - *start)
     }
 
@@ -193,7 +198,6 @@ impl BoxParser {
                     && let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1))
                 {
                     self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
-                    self.add_checkpoint();
                 }
                 ParseState::BoxNeeded(8)
             }
-- 
2.43.0


From 241f2cdc83435d379540895718e19650b8261c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 15/32] fix: report images too large to allocate as an error
 instead of panicking

---
 jxl/src/image/internal.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jxl/src/image/internal.rs b/jxl/src/image/internal.rs
index 68ed4b2..b95be91 100644
--- a/jxl/src/image/internal.rs
+++ b/jxl/src/image/internal.rs
@@ -214,13 +214,14 @@ impl RawImageBuffer {
         let bytes_between_rows =
             bytes_per_row.div_ceil(CACHE_LINE_BYTE_SIZE) * CACHE_LINE_BYTE_SIZE;
         // Note: matches RawImageBuffer::minimum_allocation_size.
+        let too_large = || Error::ImageSizeTooLarge(bytes_per_row, num_rows);
         let allocation_len = (num_rows - 1)
             .checked_mul(bytes_between_rows)
-            .unwrap()
-            .checked_add(bytes_per_row)
-            .unwrap();
+            .and_then(|len| len.checked_add(bytes_per_row))
+            .ok_or_else(too_large)?;
         assert_ne!(allocation_len, 0);
-        let layout = Layout::from_size_align(allocation_len, CACHE_LINE_BYTE_SIZE).unwrap();
+        let layout = Layout::from_size_align(allocation_len, CACHE_LINE_BYTE_SIZE)
+            .map_err(|_| too_large())?;
         let memory = if let Some(src) = copy_from {
             // SAFETY: we just checked that allocation_len is not 0.
             let memory = unsafe { alloc(layout) };
-- 
2.43.0


From 031734b59b083e17dc5662aac351265542a67ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 16/32] fix: undo palettes and colour transforms over empty
 squeezed channels without panicking

---
 jxl/src/frame/modular/transforms/apply_local.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/modular/transforms/apply_local.rs b/jxl/src/frame/modular/transforms/apply_local.rs
index 6ea87ce..906c3a2 100644
--- a/jxl/src/frame/modular/transforms/apply_local.rs
+++ b/jxl/src/frame/modular/transforms/apply_local.rs
@@ -30,7 +30,14 @@ impl LocalTransformBuffer<'_> {
         match self {
             LocalTransformBuffer::Empty => unreachable!("an empty buffer has no channel info"),
             LocalTransformBuffer::Owned(m) => m.channel_info(),
-            LocalTransformBuffer::Placeholder(c) => *c,
+            LocalTransformBuffer::Placeholder(c) => {
+                let mut info = *c;
+                // Allocating an empty image drops both of its dimensions; report the same size here.
+                if info.size.0 == 0 || info.size.1 == 0 {
+                    info.size = (0, 0);
+                }
+                info
+            }
             LocalTransformBuffer::Borrowed(m) => m.channel_info(),
         }
     }
-- 
2.43.0


From 942ed588646b6b1cb24ed80a1094cff6a5bfb45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 17/32] fix: do not take the run-length fast path for entropy
 codes without LZ77

---
 jxl/src/entropy_coding/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 222dd54..8b61571 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -573,6 +573,9 @@ impl Histograms {
     }
 
     pub fn is_rle(&self) -> bool {
+        if !self.lz77_params.enabled {
+            return false;
+        }
         let lz_dist_cluster = self.lz_dist_cluster as usize;
         let lz_conf = &self.uint_configs[lz_dist_cluster];
         self.codes.single_symbol(lz_dist_cluster) == Some(1) && lz_conf.is_split_exponent_zero()
-- 
2.43.0


From 3762f069b63e0fe066366351caab222cb537356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 18/32] fix: reject ICC tag offsets and sizes beyond 32 bits
 instead of truncating them

---
 jxl/src/icc/tag.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jxl/src/icc/tag.rs b/jxl/src/icc/tag.rs
index 0f40624..e05824e 100644
--- a/jxl/src/icc/tag.rs
+++ b/jxl/src/icc/tag.rs
@@ -21,6 +21,11 @@ const COMMON_DATA: [&[u8; 4]; 8] = [
     b"XYZ ", b"desc", b"text", b"mluc", b"para", b"curv", b"sf32", b"gbd ",
 ];
 
+/// Reads a tag offset or size, which the profile stores in 32 bits.
+fn read_varint_u32(commands_stream: &mut Cursor<Vec<u8>>) -> Result<u32> {
+    u32::try_from(read_varint_from_reader(commands_stream)?).map_err(|_| Error::InvalidIccStream)
+}
+
 pub(super) fn read_tag_list(
     data_stream: &mut IccStream,
     commands_stream: &mut Cursor<Vec<u8>>,
@@ -54,10 +59,10 @@ pub(super) fn read_tag_list(
                 .checked_add(prev_tagsize)
                 .ok_or(Error::InvalidIccStream)?
         } else {
-            read_varint_from_reader(commands_stream)? as u32
+            read_varint_u32(commands_stream)?
         };
         let tagsize = match &tag {
-            _ if command & 128 != 0 => read_varint_from_reader(commands_stream)? as u32,
+            _ if command & 128 != 0 => read_varint_u32(commands_stream)?,
             b"rXYZ" | b"gXYZ" | b"bXYZ" | b"kXYZ" | b"wtpt" | b"bkpt" | b"lumi" => 20,
             _ => prev_tagsize,
         };
-- 
2.43.0


From 07a56fe4d8049a71548fa80ad75e7170bc425b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 19/32] fix: reject VarDCT blocks that overlap earlier ones

---
 jxl/src/frame/modular/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 671264a..2d62cf0 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -1071,6 +1071,10 @@ pub fn decode_hf_metadata(
                     let is_first_block = iy == 0 && ix == 0;
                     let transform_id =
                         (raw_transform as u8) | (if is_first_block { 128 } else { 0 });
+                    if trans_row[x + ix] != HfTransformType::INVALID_TRANSFORM {
+                        // Blocks must not overlap.
+                        return Err(Error::InvalidVarDCTTransformMap);
+                    }
                     trans_row[x + ix] = transform_id;
                     rq_row[x + ix] = raw_quant;
                 }
-- 
2.43.0


From 3477879065fcd3f5a4145bc019c6c5d1a2f2d3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 20/32] fix: out-of-range VarDCT coefficients wrap instead of
 overflowing

---
 jxl/src/frame/group.rs | 3 ++-
 jxl_simd/src/scalar.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jxl/src/frame/group.rs b/jxl/src/frame/group.rs
index d7915cb..40795fb 100644
--- a/jxl/src/frame/group.rs
+++ b/jxl/src/frame/group.rs
@@ -569,7 +569,8 @@ pub fn decode_vardct_group(
                         prev = if coeff != 0 { 1 } else { 0 };
                         nonzeros -= prev;
                         let coeff_index = permutation[k] as usize;
-                        current_coeffs[coeff_index] += coeff;
+                        current_coeffs[coeff_index] =
+                            current_coeffs[coeff_index].wrapping_add(coeff);
                     }
                     if nonzeros != 0 {
                         return Err(Error::EndOfBlockResidualNonZeros(nonzeros));
diff --git a/jxl_simd/src/scalar.rs b/jxl_simd/src/scalar.rs
index 3c0abfc..153e91c 100644
--- a/jxl_simd/src/scalar.rs
+++ b/jxl_simd/src/scalar.rs
@@ -245,7 +245,7 @@ impl I32SimdVec for Wrapping<i32> {
 
     #[inline(always)]
     fn abs(self) -> Self {
-        Wrapping(self.0.abs())
+        Wrapping(self.0.wrapping_abs())
     }
 
     #[inline(always)]
-- 
2.43.0


From 4913d850799e83c7f2bccc60932de3ca72961920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 21/32] fix: opaque alpha keeps its value in big-endian output

---
 jxl/src/api/data_types.rs                 | 14 ++++++++++++++
 jxl/src/render/low_memory_pipeline/mod.rs |  3 ++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/data_types.rs b/jxl/src/api/data_types.rs
index 64e0c39..af25721 100644
--- a/jxl/src/api/data_types.rs
+++ b/jxl/src/api/data_types.rs
@@ -110,6 +110,20 @@ impl JxlDataFormat {
         }
     }
 
+    /// Returns the same format, but in native endianness.
+    pub(crate) fn to_native_endian(self) -> Self {
+        let endianness = Endianness::native();
+        match self {
+            JxlDataFormat::U8 { .. } => self,
+            JxlDataFormat::U16 { bit_depth, .. } => JxlDataFormat::U16 {
+                endianness,
+                bit_depth,
+            },
+            JxlDataFormat::F16 { .. } => JxlDataFormat::F16 { endianness },
+            JxlDataFormat::F32 { .. } => JxlDataFormat::F32 { endianness },
+        }
+    }
+
     /// Returns the byte representation of opaque alpha (1.0) for this format.
     pub(crate) fn opaque_alpha_bytes(&self) -> Vec<u8> {
         match self {
diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index e25b665..c68936a 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -230,7 +230,8 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
                     let row_len = shared.chunk_size >> dx;
-                    let fill_pattern = s.data_format.opaque_alpha_bytes();
+                    // Row buffers hold native-endian samples; saving converts them.
+                    let fill_pattern = s.data_format.to_native_endian().opaque_alpha_bytes();
                     let buf =
                         RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
                     opaque_alpha_buffers.push(Some(buf));
-- 
2.43.0


From 6966e3caf11ff86e6ce5737c68be8d0eb29d95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 22/32] fix: upsampling stages run no further ahead than row
 buffers allow

---
 jxl/src/render/low_memory_pipeline/render_group.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index c41a620..73ff376 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -368,7 +368,10 @@ impl LowMemoryRenderPipeline {
                 let (dx, dy) = self.downsampling_for_stage[i];
                 // The logic below uses *virtual* y coordinates, so we need to convert the border
                 // amount appropriately.
-                let scaled_y_border = self.stage_output_border_pixels[i].1 << dy;
+                // Note that the border is counted in *output* rows, and row buffers are sized
+                // assuming that stages run no further ahead than this.
+                let scaled_y_border =
+                    self.stage_output_border_pixels[i].1 << (dy - stage.shift().1 as usize);
                 // I knew the reason behind this formula at some point, but now I don't.
                 let stage_vy = vy as isize - num_extra_rows as isize + scaled_y_border as isize;
                 if stage_vy % (1 << dy) != 0 {
-- 
2.43.0


From 3f9cec6c65c629cbcc6aef7a846238fd9fd9b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 23/32] fix: render rows outside the frame with the height of
 the image

---
 .../render/low_memory_pipeline/render_group.rs   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index 73ff376..6ede585 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -519,18 +519,20 @@ impl LowMemoryRenderPipeline {
         let y0 = yrange.start;
         let xsize = xrange.clone().count();
         let ysize = yrange.clone().count();
+        let extend = self.shared.extend_stage_index.unwrap();
+        let Stage::Extend(extend_stage) = &self.shared.stages[extend] else {
+            unreachable!("extend stage is not an extend stage");
+        };
+        // Rows outside the frame are rows of the image, which is what this renders.
+        let image_height = extend_stage.image_size.1;
         // Significantly simplified version of render_group.
         for y in yrange.clone() {
-            let extend = self.shared.extend_stage_index.unwrap();
             // Step 1: get padding from extend stage.
             for c in 0..num_channels {
                 let (si, ci) = self.stage_input_buffer_index[extend][c];
                 let buffer = &mut data.row_buffers[si][ci];
-                let Stage::Extend(extend) = &self.shared.stages[extend] else {
-                    unreachable!("extend stage is not an extend stage");
-                };
                 let row = &mut buffer.get_row_mut(y)[RowBuffer::x0_offset::<f32>()..];
-                extend.process_row_chunk((x0, y), xsize, c, row);
+                extend_stage.process_row_chunk((x0, y), xsize, c, row);
             }
             // Step 2: go through remaining stages one by one.
             for (i, stage) in self.shared.stages.iter().enumerate().skip(extend + 1) {
@@ -550,7 +552,7 @@ impl LowMemoryRenderPipeline {
                                 out_extra_x: 0,
                                 start_of_row: false,
                                 end_of_row: false,
-                                image_height: self.shared.input_size.1,
+                                image_height,
                             },
                             &mut buffers,
                             data.local_states[i].as_deref_mut(),
@@ -596,7 +598,7 @@ impl LowMemoryRenderPipeline {
                                 out_extra_x: 0,
                                 start_of_row: false,
                                 end_of_row: false,
-                                image_height: self.shared.input_size.1,
+                                image_height,
                             },
                             &input_data,
                             &mut outb[0][..],
-- 
2.43.0


From 642ff400f3645e82c837dd822adeccfe1f973150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 24/32] fix: render narrow edge groups together with the area
 before them

---
 .../low_memory_pipeline/group_scheduler.rs    | 80 ++++++++++++-------
 1 file changed, 49 insertions(+), 31 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index 064dd7c..b6787ea 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -79,41 +79,59 @@ fn ready_image_area(
     xrange: Range<u8>,
     yrange: Range<u8>,
 ) -> Option<Rect> {
-    let (gx, gy) = group_position;
-    let y0 = match (gy == 0, yrange.start) {
-        (true, 0) => group_rect.origin.1,
-        (false, 0) => group_rect.origin.1 - border_size.1,
-        (_, 1) => group_rect.origin.1 + border_size.1,
-        // (_, 2)
-        _ => group_rect.end().1 - border_size.1,
-    };
-    let x0 = match (gx == 0, xrange.start) {
-        (true, 0) => group_rect.origin.0,
-        (false, 0) => group_rect.origin.0 - border_size.0,
-        (_, 1) => group_rect.origin.0 + border_size.0,
-        // (_, 2)
-        _ => group_rect.end().0 - border_size.0,
+    // Returns the position of the boundary between the area around `edge` (the edge of a group that
+    // is shared with the next one) and the area after it. If the image ends less than a border
+    // after that boundary, the latter area is empty: pixels before the boundary depend on mirrored
+    // pixels past the end of the image, which only exist in areas that reach it.
+    let after_edge = |edge: usize, border: usize, size: usize| {
+        if edge + 2 * border > size {
+            size
+        } else {
+            edge + border
+        }
     };
 
-    let y1 = match (gy + 1 == group_count.1, yrange.end) {
-        (true, 3) => group_rect.end().1,
-        (false, 3) => group_rect.end().1 + border_size.1,
-        (_, 2) => group_rect.end().1 - border_size.1,
-        // (_, 1)
-        _ => group_rect.origin.1 + border_size.1,
-    }
-    .min(input_size.1);
+    let (gx, gy) = group_position;
+    let area_1d = |(start, end): (usize, usize),
+                   (first, last),
+                   border: usize,
+                   size: usize,
+                   range: Range<u8>| {
+        let center_start = after_edge(start, border, size);
+        let center_end = end.saturating_sub(border).max(center_start);
+        let from = match range.start {
+            0 if first => start,
+            0 => start - border,
+            1 => center_start,
+            // 2
+            _ => center_end,
+        };
+        let to = match range.end {
+            3 if last => end,
+            3 => after_edge(end, border, size),
+            2 => center_end,
+            // 1
+            _ => center_start,
+        };
+        (from, to)
+    };
 
-    let x1 = match (gx + 1 == group_count.0, xrange.end) {
-        (true, 3) => group_rect.end().0,
-        (false, 3) => group_rect.end().0 + border_size.0,
-        (_, 2) => group_rect.end().0 - border_size.0,
-        // (_, 1)
-        _ => group_rect.origin.0 + border_size.0,
-    }
-    .min(input_size.0);
+    let (x0, x1) = area_1d(
+        (group_rect.origin.0, group_rect.end().0),
+        (gx == 0, gx + 1 == group_count.0),
+        border_size.0,
+        input_size.0,
+        xrange,
+    );
+    let (y0, y1) = area_1d(
+        (group_rect.origin.1, group_rect.end().1),
+        (gy == 0, gy + 1 == group_count.1),
+        border_size.1,
+        input_size.1,
+        yrange,
+    );
 
-    (x1 >= x0 && y1 >= y0).then_some(Rect {
+    (x1 > x0 && y1 > y0).then(|| Rect {
         origin: (x0, y0),
         size: (x1 - x0, y1 - y0),
     })
-- 
2.43.0


From b572bda69f4be8eca601bb3dc58b14e6f0cf7e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 25/32] fix: areas rendered at once start at whole pixels of
 subsampled channels

---
 jxl/src/render/low_memory_pipeline/mod.rs | 43 +++++++++++++----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index c68936a..4e047df 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -223,6 +223,31 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             })
             .collect();
 
+        let mut border_size = (0, 0);
+        for c in 0..nc {
+            border_size.0 = border_size
+                .0
+                .max(border_pixels[c].0 << shared.channel_info[0][c].downsample.0);
+            border_size.1 = border_size
+                .1
+                .max(border_pixels[c].1 << shared.channel_info[0][c].downsample.1);
+        }
+        for s in 0..shared.stages.len() {
+            border_size.0 = border_size
+                .0
+                .max(border_pixels_per_stage[s].0 << downsampling_for_stage[s].0);
+            border_size.1 = border_size
+                .1
+                .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
+        }
+        // Areas start and end at whole pixels of every channel.
+        let max_downsample = |f: fn(&(u8, u8)) -> u8| {
+            let ds = shared.channel_info[0].iter().map(|ci| f(&ci.downsample));
+            ds.max().unwrap_or(0)
+        };
+        border_size.0 = border_size.0.next_multiple_of(1 << max_downsample(|d| d.0));
+        border_size.1 = border_size.1.next_multiple_of(1 << max_downsample(|d| d.1));
+
         // Create opaque alpha buffers for save stages that need fill_opaque_alpha
         let mut opaque_alpha_buffers = vec![];
         for (i, stage) in shared.stages.iter().enumerate() {
@@ -272,24 +297,6 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             })
             .collect();
 
-        let mut border_size = (0, 0);
-        for c in 0..nc {
-            border_size.0 = border_size
-                .0
-                .max(border_pixels[c].0 << shared.channel_info[0][c].downsample.0);
-            border_size.1 = border_size
-                .1
-                .max(border_pixels[c].1 << shared.channel_info[0][c].downsample.1);
-        }
-        for s in 0..shared.stages.len() {
-            border_size.0 = border_size
-                .0
-                .max(border_pixels_per_stage[s].0 << downsampling_for_stage[s].0);
-            border_size.1 = border_size
-                .1
-                .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
-        }
-
         Ok(Self {
             input_buffers: InputBuffers::new(nc, shared.group_count)?,
             stage_input_buffer_index,
-- 
2.43.0


From 2ed162ae38a59ae00070a0f17ab7bb0d1603e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 26/32] fix: row buffers have room for areas that extend into
 the next groups

---
 jxl/src/render/low_memory_pipeline/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 4e047df..1737ec1 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -56,7 +56,7 @@ impl LowMemoryRenderPipelinePerThread {
                 p.next_border_and_cur_downsample[0][chan].0 as usize,
                 0,
                 0,
-                p.shared.chunk_size >> p.shared.channel_info[0][chan].downsample.0,
+                p.max_area_xsize >> p.shared.channel_info[0][chan].downsample.0,
             )?);
         }
         self.row_buffers = vec![initial_buffers];
@@ -70,7 +70,7 @@ impl LowMemoryRenderPipelinePerThread {
                     *next_y_border as usize,
                     stage.shift().1 as usize,
                     stage.shift().0 as usize,
-                    p.shared.chunk_size >> *dsx,
+                    p.max_area_xsize >> *dsx,
                 )?);
             }
             self.row_buffers.push(stage_buffers);
@@ -105,6 +105,8 @@ pub struct LowMemoryRenderPipeline {
     input_border_pixels: Vec<(usize, usize)>,
     // Size of the border, in image (i.e. non-downsampled) pixels.
     border_size: (usize, usize),
+    // Maximum width of an area that is rendered at once, in image pixels.
+    max_area_xsize: usize,
     // For every stage, the downsampling level of *any* channel that the stage uses at that point.
     // Note that this must be equal across all the used channels.
     downsampling_for_stage: Vec<(usize, usize)>,
@@ -248,13 +250,17 @@ impl RenderPipeline for LowMemoryRenderPipeline {
         border_size.0 = border_size.0.next_multiple_of(1 << max_downsample(|d| d.0));
         border_size.1 = border_size.1.next_multiple_of(1 << max_downsample(|d| d.1));
 
+        // Areas to be rendered at once extend beyond a group by up to one border on the left, and
+        // two on the right.
+        let max_area_xsize = shared.chunk_size + 3 * border_size.0;
+
         // Create opaque alpha buffers for save stages that need fill_opaque_alpha
         let mut opaque_alpha_buffers = vec![];
         for (i, stage) in shared.stages.iter().enumerate() {
             if let Stage::Save(s) = stage {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
-                    let row_len = shared.chunk_size >> dx;
+                    let row_len = max_area_xsize >> dx;
                     // Row buffers hold native-endian samples; saving converts them.
                     let fill_pattern = s.data_format.to_native_endian().opaque_alpha_bytes();
                     let buf =
@@ -309,6 +315,7 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             save_buffer_info,
             stage_output_border_pixels: border_pixels_per_stage,
             border_size,
+            max_area_xsize,
             input_border_pixels: border_pixels,
             group_scratch_buffers_limit: shared.group_scratch_buffers_limit,
             shared,
-- 
2.43.0


From 41596b24716dc2093c390d4f91185059eda75865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 27/32] fix: patch blend modes beyond 255 are rejected

---
 jxl/src/features/patches.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index b260db3..0bafa4f 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -565,7 +565,8 @@ impl PatchesDictionary {
                         &patches_histograms,
                         br,
                         PatchContext::PatchBlendMode as usize,
-                    ) as u8;
+                    );
+                    let maybe_blend_mode = u8::try_from(maybe_blend_mode).unwrap_or(u8::MAX);
                     let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode) {
                         None => {
                             return Err(Error::PatchesInvalidBlendMode(
-- 
2.43.0


From 4d0753a38fba69a5cab23e9064ecbaf3669afdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 28/32] fix: patch offsets of any size are added without
 overflow

---
 jxl/src/features/patches.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 0bafa4f..5dbfd6e 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -517,28 +517,38 @@ impl PatchesDictionary {
                         br,
                         PatchContext::PatchOffset as usize,
                     );
-                    if delta_x < 0 && (-delta_x as usize) > positions.last().unwrap().x {
+                    let Some(new_x) = positions
+                        .last()
+                        .unwrap()
+                        .x
+                        .checked_add_signed(delta_x as isize)
+                    else {
                         return Err(Error::PatchesInvalidDelta(
                             "x".to_string(),
                             positions.last().unwrap().x,
                             delta_x,
                         ));
-                    }
-                    pos.x = (positions.last().unwrap().x as i32 + delta_x) as usize;
+                    };
+                    pos.x = new_x;
 
                     let delta_y = patches_reader.read_signed(
                         &patches_histograms,
                         br,
                         PatchContext::PatchOffset as usize,
                     );
-                    if delta_y < 0 && (-delta_y as usize) > positions.last().unwrap().y {
+                    let Some(new_y) = positions
+                        .last()
+                        .unwrap()
+                        .y
+                        .checked_add_signed(delta_y as isize)
+                    else {
                         return Err(Error::PatchesInvalidDelta(
                             "y".to_string(),
                             positions.last().unwrap().y,
                             delta_y,
                         ));
-                    }
-                    pos.y = (positions.last().unwrap().y as i32 + delta_y) as usize;
+                    };
+                    pos.y = new_y;
                 }
 
                 if pos.x + ref_pos_xsize > xsize {
-- 
2.43.0


From 2d7cc91aa83b0abed1ba0637dc03e92d8bed5fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 29/32] fix: the final entropy coder state of patch
 dictionaries is checked

---
 jxl/src/features/patches.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 5dbfd6e..9c26eeb 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -626,6 +626,8 @@ impl PatchesDictionary {
             })
         }
 
+        patches_reader.check_final_state(&patches_histograms, br)?;
+
         let mut patches_dict = PatchesDictionary {
             positions,
             blendings,
-- 
2.43.0


From 63b8aa475542366afdb14e5e1f69f7b5c9110a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 30/32] fix: multiplicative blending of frames clamps the new
 frame

---
 jxl/src/features/blending.rs      | 35 ++++++++++++++++++++++++++-----
 jxl/src/features/patches.rs       |  9 ++++++--
 jxl/src/render/stages/blending.rs |  2 +-
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/jxl/src/features/blending.rs b/jxl/src/features/blending.rs
index e3df4b7..748f92e 100644
--- a/jxl/src/features/blending.rs
+++ b/jxl/src/features/blending.rs
@@ -151,10 +151,13 @@ simd_function!(
     }
 );
 
+// Above: dst = dst * src (src is the newly composited layer, which is the one that is clamped).
+// Below: the same, but dst is the newly composited layer.
 simd_function!(
     mul,
     d: D,
-    fn mul_impl(dst: &mut [f32], src: &[f32], xsize: usize, clamp: bool) {
+    fn mul_impl(dst: &mut [f32], src: &[f32], xsize: usize, clamp: bool, order: BlendOrder) {
+        let fg_on_top = order == BlendOrder::Above;
         let lanes = D::F32Vec::LEN;
         let one = D::F32Vec::splat(d, 1.0);
         let zero = D::F32Vec::zero(d);
@@ -163,8 +166,10 @@ simd_function!(
         let maybe_clamp_vec = |v: D::F32Vec| if clamp { v.max(zero).min(one) } else { v };
         for k in 0..xsize.div_ceil(lanes) {
             let x = k * lanes;
-            let s = maybe_clamp_vec(load_vec(d, src, x));
-            store_vec(d, load_vec(d, dst, x) * s, dst, x);
+            let src_v = load_vec(d, src, x);
+            let dst_v = load_vec(d, dst, x);
+            let (top, bottom) = if fg_on_top { (src_v, dst_v) } else { (dst_v, src_v) };
+            store_vec(d, bottom * maybe_clamp_vec(top), dst, x);
         }
     }
 );
@@ -356,7 +361,10 @@ pub fn perform_blending(
                 }
             }
             PatchBlendMode::Mul => {
-                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp);
+                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp, BlendOrder::Above);
+            }
+            PatchBlendMode::MulBelow => {
+                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp, BlendOrder::Below);
             }
             PatchBlendMode::Replace => {
                 ec_out.copy_from_slice(&fg[3 + i][..xsize]);
@@ -458,7 +466,24 @@ pub fn perform_blending(
         }
         PatchBlendMode::Mul => {
             for c in 0..3 {
-                mul(bg_color[c], &fg[c][..xsize], xsize, clamp);
+                mul(
+                    bg_color[c],
+                    &fg[c][..xsize],
+                    xsize,
+                    clamp,
+                    BlendOrder::Above,
+                );
+            }
+        }
+        PatchBlendMode::MulBelow => {
+            for c in 0..3 {
+                mul(
+                    bg_color[c],
+                    &fg[c][..xsize],
+                    xsize,
+                    clamp,
+                    BlendOrder::Below,
+                );
             }
         }
         PatchBlendMode::Replace => {
diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 9c26eeb..f103320 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -71,6 +71,9 @@ pub enum PatchBlendMode {
     // For other channels: sample = old + alpha * new
     AlphaWeightedAddAbove = 6,
     AlphaWeightedAddBelow = 7,
+    // As `Mul`, but with the meaning of new and old inverted. Only used for blending frames, never
+    // coded in a patch.
+    MulBelow = 8,
 }
 
 impl PatchBlendMode {
@@ -119,7 +122,7 @@ impl PatchBlendMode {
     }
 
     pub fn uses_clamp(self) -> bool {
-        self.uses_alpha() || self == Self::Mul
+        self.uses_alpha() || matches!(self, Self::Mul | Self::MulBelow)
     }
 }
 
@@ -577,7 +580,9 @@ impl PatchesDictionary {
                         PatchContext::PatchBlendMode as usize,
                     );
                     let maybe_blend_mode = u8::try_from(maybe_blend_mode).unwrap_or(u8::MAX);
-                    let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode) {
+                    let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode)
+                        .filter(|_| maybe_blend_mode < PatchBlendMode::NUM_BLEND_MODES)
+                    {
                         None => {
                             return Err(Error::PatchesInvalidBlendMode(
                                 maybe_blend_mode,
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index 6ac3e0e..ac83b82 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -43,7 +43,7 @@ impl From<&BlendingInfo> for PatchBlending {
         let mode = match info.mode {
             BlendingMode::Replace => PatchBlendMode::None,
             BlendingMode::Add => PatchBlendMode::Add,
-            BlendingMode::Mul => PatchBlendMode::Mul,
+            BlendingMode::Mul => PatchBlendMode::MulBelow,
             BlendingMode::Blend => PatchBlendMode::BlendBelow,
             BlendingMode::AlphaWeightedAdd => PatchBlendMode::AlphaWeightedAddBelow,
         };
-- 
2.43.0


From 5e13740ed862a285ceeba1d5528dd6c48b0f2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 31/32] fix: frames are not blended with reference frames
 smaller than the image

---
 jxl/src/error.rs                  |  4 ++++
 jxl/src/render/stages/blending.rs | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index c84b036..0bd28d4 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -162,6 +162,10 @@ pub enum Error {
         "Invalid position specified in reference frame in {0}-coordinate: {0}0 + {0}size = {1} + {2} > {3} = reference_frame {0}size"
     )]
     PatchesInvalidPosition(String, usize, usize, usize),
+    #[error(
+        "Reference frame {0} of size {1}x{2} is too small to blend with an image of size {3}x{4}"
+    )]
+    BlendingReferenceTooSmall(usize, usize, usize, usize, usize),
     #[error("Patches invalid reference frame at index {0}")]
     PatchesInvalidReference(usize),
     #[error("Invalid Patch {0}: at {1} + {2} > {3}")]
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index ac83b82..43c55b2 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -3,7 +3,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::features::blending::perform_blending;
 use crate::features::patches::{PatchBlendMode, PatchBlending};
 use crate::frame::ReferenceFrame;
@@ -62,11 +62,27 @@ impl BlendingStage {
         reference_frames: Arc<[Option<ReferenceFrame>; 4]>,
     ) -> Result<BlendingStage> {
         let xsize = file_header.size.xsize();
+        let ysize = file_header.size.ysize();
         let ec_blending_info = frame_header.ec_blending_info.clone();
+        for info in std::iter::once(&frame_header.blending_info).chain(&ec_blending_info) {
+            let source = info.source as usize;
+            if let Some(rf) = &reference_frames[source] {
+                let size = rf.frame[0].size();
+                if size.0 < xsize as usize || size.1 < ysize as usize {
+                    return Err(Error::BlendingReferenceTooSmall(
+                        source,
+                        size.0,
+                        size.1,
+                        xsize as usize,
+                        ysize as usize,
+                    ));
+                }
+            }
+        }
         let ec_patch_blending_info = ec_blending_info.iter().map(PatchBlending::from).collect();
         Ok(BlendingStage {
             frame_origin: (frame_header.x0 as isize, frame_header.y0 as isize),
-            image_size: (xsize as isize, file_header.size.ysize() as isize),
+            image_size: (xsize as isize, ysize as isize),
             blending_info: frame_header.blending_info.clone(),
             ec_blending_info,
             ec_patch_blending_info,
-- 
2.43.0


From 90319ef78ebca4d9384483a297ce72284fd9c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:32 +0000
Subject: [PATCH 32/32] verif: hook modules in the filter and colour stages

---
 jxl/src/features/epf.rs                    | 2 ++
 jxl/src/frame/lf_preview.rs                | 2 ++
 jxl/src/frame/render.rs                    | 2 ++
 jxl/src/render/stages/epf/mod.rs           | 2 ++
 jxl/src/render/stages/from_linear.rs       | 2 ++
 jxl/src/render/stages/gaborish.rs          | 2 ++
 jxl/src/render/stages/noise.rs             | 2 ++
 jxl/src/render/stages/patches.rs           | 2 ++
 jxl/src/render/stages/premultiply_alpha.rs | 2 ++
 jxl/src/render/stages/splines.rs           | 2 ++
 jxl/src/render/stages/spot.rs              | 2 ++
 jxl/src/render/stages/to_linear.rs         | 2 ++
 jxl/src/render/stages/xyb.rs               | 2 ++
 jxl/src/render/stages/ycbcr.rs             | 2 ++
 14 files changed, 28 insertions(+)

diff --git a/jxl/src/features/epf.rs b/jxl/src/features/epf.rs
index 23cbf64..a6dfb45 100644
--- a/jxl/src/features/epf.rs
+++ b/jxl/src/features/epf.rs
@@ -85,3 +85,5 @@ impl SigmaSource {
         }
     }
 }
+
+verif_hook!(features_epf);
diff --git a/jxl/src/frame/lf_preview.rs b/jxl/src/frame/lf_preview.rs
index 957f082..1b7cff9 100644
--- a/jxl/src/frame/lf_preview.rs
+++ b/jxl/src/frame/lf_preview.rs
@@ -386,3 +386,5 @@ impl Frame {
         Ok(!regions.is_empty())
     }
 }
+
+verif_hook!(frame_lf_preview);
diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 3c05cd2..30c4b9a 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -955,3 +955,5 @@ impl Frame {
         Ok(())
     }
 }
+
+verif_hook!(frame_render);
diff --git a/jxl/src/render/stages/epf/mod.rs b/jxl/src/render/stages/epf/mod.rs
index e927f48..5cde849 100644
--- a/jxl/src/render/stages/epf/mod.rs
+++ b/jxl/src/render/stages/epf/mod.rs
@@ -14,3 +14,5 @@ pub use epf2::Epf2Stage;
 
 #[cfg(test)]
 mod test;
+
+verif_hook!(render_stages_epf);
diff --git a/jxl/src/render/stages/from_linear.rs b/jxl/src/render/stages/from_linear.rs
index c6cd018..487c66f 100644
--- a/jxl/src/render/stages/from_linear.rs
+++ b/jxl/src/render/stages/from_linear.rs
@@ -292,3 +292,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(render_stages_from_linear);
diff --git a/jxl/src/render/stages/gaborish.rs b/jxl/src/render/stages/gaborish.rs
index e2af31d..c8e982b 100644
--- a/jxl/src/render/stages/gaborish.rs
+++ b/jxl/src/render/stages/gaborish.rs
@@ -144,3 +144,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(render_stages_gaborish);
diff --git a/jxl/src/render/stages/noise.rs b/jxl/src/render/stages/noise.rs
index 222315f..4c47e69 100644
--- a/jxl/src/render/stages/noise.rs
+++ b/jxl/src/render/stages/noise.rs
@@ -342,3 +342,5 @@ mod test {
         )
     }
 }
+
+verif_hook!(render_stages_noise);
diff --git a/jxl/src/render/stages/patches.rs b/jxl/src/render/stages/patches.rs
index 88f8128..7654d7a 100644
--- a/jxl/src/render/stages/patches.rs
+++ b/jxl/src/render/stages/patches.rs
@@ -127,3 +127,5 @@ mod test {
         )
     }
 }
+
+verif_hook!(render_stages_patches);
diff --git a/jxl/src/render/stages/premultiply_alpha.rs b/jxl/src/render/stages/premultiply_alpha.rs
index f321108..48efd17 100644
--- a/jxl/src/render/stages/premultiply_alpha.rs
+++ b/jxl/src/render/stages/premultiply_alpha.rs
@@ -143,3 +143,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(render_stages_premultiply_alpha);
diff --git a/jxl/src/render/stages/splines.rs b/jxl/src/render/stages/splines.rs
index 9933581..41add5b 100644
--- a/jxl/src/render/stages/splines.rs
+++ b/jxl/src/render/stages/splines.rs
@@ -102,3 +102,5 @@ mod test {
         )
     }
 }
+
+verif_hook!(render_stages_splines);
diff --git a/jxl/src/render/stages/spot.rs b/jxl/src/render/stages/spot.rs
index e27fff6..fca7a11 100644
--- a/jxl/src/render/stages/spot.rs
+++ b/jxl/src/render/stages/spot.rs
@@ -113,3 +113,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(render_stages_spot);
diff --git a/jxl/src/render/stages/to_linear.rs b/jxl/src/render/stages/to_linear.rs
index a231112..9b46714 100644
--- a/jxl/src/render/stages/to_linear.rs
+++ b/jxl/src/render/stages/to_linear.rs
@@ -232,3 +232,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(render_stages_to_linear);
diff --git a/jxl/src/render/stages/xyb.rs b/jxl/src/render/stages/xyb.rs
index 9a0d6bc..bb8e145 100644
--- a/jxl/src/render/stages/xyb.rs
+++ b/jxl/src/render/stages/xyb.rs
@@ -364,3 +364,5 @@ mod test {
 
     test_all_instruction_sets!(xyb_process_scalar_equivalent);
 }
+
+verif_hook!(render_stages_xyb);
diff --git a/jxl/src/render/stages/ycbcr.rs b/jxl/src/render/stages/ycbcr.rs
index b94a47a..d066a09 100644
--- a/jxl/src/render/stages/ycbcr.rs
+++ b/jxl/src/render/stages/ycbcr.rs
@@ -152,3 +152,5 @@ mod test {
         Ok(())
     }
 }
+
+verif_hook!(render_stages_ycbcr);
-- 
2.43.0

