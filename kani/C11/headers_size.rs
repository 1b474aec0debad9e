// C11: image and preview dimensions.
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};
#[allow(unused_imports)]
use crate::verif::{Rd, Tape, harness, tape_harness, vany, vassume, vcover, vok, vrange};

fn ratio(y: u64, r: u64) -> u64 {
    const N: [(u64, u64); 8] = [(0, 1), (1, 1), (12, 10), (4, 3), (3, 2), (16, 9), (5, 4), (2, 1)];
    y * N[r as usize].0 / N[r as usize].1
}
/// (width, height) as the format defines it.
pub(crate) fn size_spec<R: Rd>(s: &mut R) -> (u64, u64) {
    const D: [(usize, u64); 4] = [(9, 1), (13, 1), (18, 1), (30, 1)];
    let small = s.flag();
    let y = if small { 8 * (s.get(5) + 1) } else { s.sel(D) };
    let r = s.get(3);
    let x = match (r, small) {
        (0, true) => 8 * (s.get(5) + 1),
        (0, false) => s.sel(D),
        _ => ratio(y, r),
    };
    (x, y)
}
pub(crate) fn preview_spec<R: Rd>(s: &mut R) -> (u64, u64) {
    const D: [(usize, u64); 4] = [(6, 1), (8, 65), (10, 321), (12, 1345)];
    const E: [(usize, u64); 4] = [(0, 16), (0, 32), (5, 1), (9, 33)];
    let div8 = s.flag();
    let y = if div8 { 8 * s.sel(E) } else { s.sel(D) };
    let r = s.get(3);
    let x = match (r, div8) {
        (0, true) => 8 * s.sel(E),
        (0, false) => s.sel(D),
        _ => ratio(y, r),
    };
    (x, y)
}

// kind: proof
tape_harness!(c11_size, unwind = 10, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let got = vok(Size::read_unconditional(&(), &mut br, &Empty {}));
    let (x, y) = size_spec(&mut s);
    if s.short || x > u32::MAX as u64 {
        assert!(got.is_none(), "cut short or too wide");
    } else {
        let got = got.unwrap();
        assert!(got.xsize() as u64 == x && got.ysize() as u64 == y, "dimensions");
        assert!(br.total_bits_read() == s.pos, "consumes exactly its bits");
    }
    vcover!(!s.short && x == 1 << 30, "widest coded");
});

// kind: proof
tape_harness!(c11_preview, unwind = 10, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let got = vok(Preview::read_unconditional(&(), &mut br, &Empty {}));
    let (x, y) = preview_spec(&mut s);
    if s.short {
        assert!(got.is_none(), "cut short");
    } else {
        let got = got.unwrap();
        assert!(got.xsize() as u64 == x && got.ysize() as u64 == y, "dimensions");
        assert!(br.total_bits_read() == s.pos, "consumes exactly its bits");
    }
    vcover!(!s.short && y == 5440, "tallest");
});
