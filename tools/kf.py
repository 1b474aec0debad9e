import json
F=[("C01","4edf1a9","BitReader::split_at: over-reads of the split-off reader went undetected until the end of the whole buffer"),
("C15","962f4cc","f16<->f32: subnormal half-floats converted to wrong values (and subnormal results were flushed or mis-rounded)"),
("C02","962f4cc","half-float header fields that are subnormal decoded to wrong values"),
("C04","f535c20","ANS distributions whose repeat range starts right where the previous one ends were rejected"),
("C05","9f48330","simple prefix codes with repeated symbols were accepted when the repeats were adjacent in the header"),
("C06","b02d548","SymbolReader::restore without progress since the checkpoint corrupted the LZ77 window"),
("C07","0ae70ca","simple context maps leaving a histogram unused were accepted"),
("C13","241f2cd","images whose allocation size overflows panicked instead of being reported"),
("C20","942ed58","prefix codes without LZ77 whose only symbol is 1 panicked in the run-length fast path"),
("C29","41596b2","patch blend modes beyond 255 were truncated to valid ones"),
("C29","4d0753a","patch positions overflowed (panic) when the coded differences are large"),
("C29","2d7cc91","the final entropy coder state of patch dictionaries was not checked"),
("C29","63b8aa4","multiplicative blending of frames clamped the canvas instead of the new frame"),
("C29","5e13740","blending with a reference frame smaller than the image panicked"),
("C28","4913d85",'opaque alpha was written in native byte order into big-endian formats'),
("C28","6966e3c",'rows were lost when a stage with a border follows a vertical upsampling'),
("C28","3f9cec6",'stages before an extension rendered rows outside the frame by the height of the canvas'),
("C28","642ff40",'narrow last groups were rendered before the area they mirror was complete'),
("C28","b572bda",'areas of groups started inside pixels of subsampled channels'),
("C28","2ed162a",'row buffers were too short for areas that reach into the next groups (panic)'),
("C27","3762f06","ICC tag offsets and sizes beyond 32 bits were truncated instead of rejected"),
("C26","07a56fe","overlapping VarDCT blocks were accepted and could overrun the coefficient buffer"),
("C25","3477879","out-of-range VarDCT coefficients overflowed and panicked when summed over passes or dequantised"),
("C16","031734b","palettes and colour transforms over empty squeezed channels panicked"),
("C10","0299dc0",'box positions stay exact after buffered out-of-order boxes and codestreams that end early'),
("C10","b263114",'out-of-order boxes are buffered from what was already read ahead, without padding or losing data'),
("C10","0a2f3d4",'vectored codestream reads at the end of the input do not run past a buffer'),
("C10","bb504be",'input skip reports only the bytes it skipped and never moves past the end or backwards'),
("C10","846215b",'empty codestream boxes end the codestream and hand over to buffered boxes like any other'),
("C10","cff1476",'box checkpoints inside a codestream box remember how much of the box is left')]
json.dump([{"property":p,"status":"fixed","commit":c,"what":w,"line":f"fixed: property={p} {c} {w}"} for p,c,w in F],open('/verif/known_findings.json','w'),indent=1)
