// C11: sample formats.
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};
#[allow(unused_imports)]
use crate::verif::{Rd, Tape, harness, tape_harness, vany, vassume, vcover, vok, vrange};

/// (float, bits, exponent bits) and whether it is a defined sample format.
pub(crate) fn depth_spec<R: Rd>(s: &mut R) -> ((bool, u64, u64), bool) {
    if s.flag() {
        let b = s.sel([(0, 32), (0, 16), (0, 24), (6, 1)]);
        let e = s.get(4) + 1;
        ((true, b, e), (2..=8).contains(&e) && b >= e + 3 && b <= e + 24)
    } else {
        let b = s.sel([(0, 8), (0, 10), (0, 12), (6, 1)]);
        ((false, b, 0), b <= 31)
    }
}

// kind: proof
tape_harness!(c11_bit_depth, unwind = 10, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let got = vok(BitDepth::read_unconditional(&(), &mut br, &Empty {}));
    let ((f, b, e), ok) = depth_spec(&mut s);
    if s.short || !ok {
        assert!(got.is_none(), "cut short or undefined");
    } else {
        let g = got.unwrap();
        assert!(g.floating_point_sample() == f && g.bits_per_sample() as u64 == b && g.exponent_bits_per_sample() as u64 == e, "sample format");
        assert!(br.total_bits_read() == s.pos, "consumes exactly its bits");
    }
    vcover!(!s.short && ok && f && b == 32 && e == 8, "f32");
});
// kind: proof
harness!(c11_default_depth, {
    let d = BitDepth::default(&Empty {});
    assert!(!d.floating_point_sample() && d.bits_per_sample() == 8, "the default is 8-bit integers");
});
