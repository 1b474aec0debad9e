// C28: opaque alpha is one, in every format.
#[allow(unused_imports)]
use crate::verif::{harness, vany, vassume, vcover, vrange};

fn any_format() -> (usize, JxlDataFormat, u8) {
    let endianness = if vany() { Endianness::LittleEndian } else { Endianness::BigEndian };
    let kind = vrange(0, 3);
    let bit_depth = vrange(1, 16) as u8;
    vassume(kind != 0 || bit_depth <= 8);
    let f = match kind {
        0 => JxlDataFormat::U8 { bit_depth },
        1 => JxlDataFormat::U16 { endianness, bit_depth },
        2 => JxlDataFormat::F16 { endianness },
        _ => JxlDataFormat::F32 { endianness },
    };
    (kind, f, bit_depth)
}
// kind: proof(all formats)
harness!(c28_opaque, unwind = 5, {
    let (kind, f, depth) = any_format();
    let n = f.to_native_endian();
    let b = n.opaque_alpha_bytes();
    assert!(b.len() == f.bytes_per_sample(), "one sample");
    assert!(b.len() == [1, 2, 2, 4][kind], "size of a sample");
    assert!(f.data_type().size() == b.len() && n.data_type() == f.data_type(), "type of a sample");
    match kind {
        0 => assert!(b[0] as u32 == (1 << depth) - 1, "largest value"),
        1 => assert!(u16::from_ne_bytes([b[0], b[1]]) as u32 == (1 << depth) - 1, "largest value"),
        2 => assert!(u16::from_ne_bytes([b[0], b[1]]) == 0x3C00, "one"),
        _ => assert!(u32::from_ne_bytes([b[0], b[1], b[2], b[3]]) == 0x3F800000, "one"),
    }
    // What is written has the asked byte order.
    let w = f.opaque_alpha_bytes();
    let big = matches!(f, JxlDataFormat::U16 { endianness: Endianness::BigEndian, .. } | JxlDataFormat::F16 { endianness: Endianness::BigEndian } | JxlDataFormat::F32 { endianness: Endianness::BigEndian });
    vcover!(big && kind == 3, "case 1");
    let i = vrange(0, 3);
    vassume(i < b.len());
    let swap = big == cfg!(target_endian = "little");
    assert!(w.len() == b.len() && w[i] == b[if swap { b.len() - 1 - i } else { i }], "byte order");
});
