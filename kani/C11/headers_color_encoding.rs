// C11: colour encoding fields.
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};
#[allow(unused_imports)]
use crate::verif::{Rd, Tape, harness, tape_harness, vany, vassume, vcover, vok, vrange};

#[derive(Clone, Copy, Debug)]
pub(crate) struct Col {
    icc: bool,
    space: u64,
    white: (u64, [i64; 2]),
    prim: (u64, [i64; 6]),
    gamma: Option<u64>,
    tf: u64,
    intent: u64,
}
impl PartialEq for Col {
    fn eq(&self, o: &Col) -> bool {
        let (a, b, p, q) = (&self.white.1, &o.white.1, &self.prim.1, &o.prim.1);
        let xy = a[0] == b[0] && a[1] == b[1] && p[0] == q[0] && p[1] == q[1] && p[2] == q[2] && p[3] == q[3] && p[4] == q[4] && p[5] == q[5];
        self.icc == o.icc && self.space == o.space && self.white.0 == o.white.0 && self.prim.0 == o.prim.0 && xy
            && self.gamma == o.gamma && self.tf == o.tf && self.intent == o.intent
    }
}
const XY: [(usize, u64); 4] = [(19, 0), (19, 524288), (20, 1048576), (21, 2097152)];
/// Some(None): rejected or unspecified... see `Kind`.
#[derive(PartialEq, Clone, Copy, Debug)]
pub(crate) enum Kind {
    Valid(Col),
    Invalid,
    /// The outcome is not specified here (XYB as the signalled space, or an unknown space together with an ICC profile).
    Open,
}
pub(crate) fn color_spec<R: Rd>(s: &mut R) -> Kind {
    let mut c = Col { icc: false, space: 0, white: (1, [0; 2]), prim: (1, [0; 6]), gamma: None, tf: 13, intent: 1 };
    if s.flag() {
        return Kind::Valid(c);
    }
    c.icc = s.flag();
    c.space = s.en();
    if c.space > 3 {
        return Kind::Invalid;
    }
    if c.space == 2 {
        return Kind::Open;
    }
    if c.icc {
        return if c.space == 3 { Kind::Open } else { Kind::Valid(c) };
    }
    c.white.0 = s.en();
    if ![1, 2, 10, 11].contains(&c.white.0) {
        return Kind::Invalid;
    }
    if c.white.0 == 2 {
        c.white.1 = [s.signed(XY), s.signed(XY)];
    }
    if c.space != 1 {
        c.prim.0 = s.en();
        if ![1, 2, 9, 11].contains(&c.prim.0) {
            return Kind::Invalid;
        }
        if c.prim.0 == 2 {
            for i in 0..6 {
                c.prim.1[i] = s.signed(XY);
            }
        }
    }
    if s.flag() {
        let g = s.get(24);
        // gamma = g / 10^7 in [1/8192, 1]
        if g > 10_000_000 || g < 1221 {
            return Kind::Invalid;
        }
        c.gamma = Some(g);
    } else {
        c.tf = s.en();
        if ![1, 8, 13, 16, 17, 18].contains(&c.tf) {
            return Kind::Invalid;
        }
    }
    c.intent = s.en();
    if c.intent > 3 || c.space == 3 {
        return Kind::Invalid;
    }
    Kind::Valid(c)
}
pub(crate) fn dump(g: &ColorEncoding) -> Col {
    let p = &g.custom_primaries;
    Col {
        icc: g.want_icc,
        space: g.color_space as u64,
        white: (g.white_point as u64, [g.white.x as i64, g.white.y as i64]),
        prim: (g.primaries as u64, [p[0].x as i64, p[0].y as i64, p[1].x as i64, p[1].y as i64, p[2].x as i64, p[2].y as i64]),
        gamma: if g.tf.have_gamma { Some(g.tf.gamma as u64) } else { None },
        tf: if g.tf.have_gamma { 13 } else { g.tf.transfer_function as u64 },
        intent: g.rendering_intent as u64,
    }
}

// kind: bounded(encodings of at most 128 bits: custom primaries only when their coordinates are short)
tape_harness!(c11_color_encoding, unwind = 10, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let got = vok(ColorEncoding::read_unconditional(&(), &mut br, &Empty {}));
    let want = color_spec(&mut s);
    if s.short {
        assert!(got.is_none() || want == Kind::Open, "cut short");
        return;
    }
    match want {
        Kind::Valid(c) => {
            let g = got.unwrap();
            assert!(dump(&g) == c, "colour encoding");
            assert!(br.total_bits_read() == s.pos, "consumes exactly its bits");
        }
        Kind::Invalid => assert!(got.is_none(), "undefined encodings are rejected"),
        Kind::Open => {}
    }
    vcover!(matches!(want, Kind::Valid(c) if c.white.0 == 2 && c.gamma == Some(10_000_000)), "gamma 1");
});
#[allow(dead_code)]
pub(crate) fn default_kind() -> Kind {
    Kind::Valid(Col { icc: false, space: 0, white: (1, [0; 2]), prim: (1, [0; 6]), gamma: None, tf: 13, intent: 1 })
}
