// C23: colour correlation header.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};

// kind: proof
tape_harness!(c23_colour_correlation, unwind = 14, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let r = vok(ColorCorrelationParams::read(&mut br));
    let (mut factor, mut bx, mut bb, mut x, mut b) = (84, Some(0.0), Some(1.0), 0, 0);
    if !s.bool() {
        factor = s.u32_sel([(0, 84), (0, 256), (8, 2), (16, 258)]);
        bx = s.f16();
        bb = s.f16();
        x = s.read(8) as i32 - 128;
        b = s.read(8) as i32 - 128;
    }
    let valid = matches!((bx, bb), (Some(p), Some(q)) if p <= 4.0 && q <= 4.0);
    if s.short {
        assert!(r.is_none(), "truncated headers are rejected");
    } else {
        assert!(r.is_some() == valid, "rejected exactly when a base is not finite or above 4");
    }
    if let Some(c) = r {
        vcover!(c.color_factor == 65793, "largest factor");
        assert!(c.color_factor as u64 == factor && c.base_correlation_x == bx.unwrap() && c.base_correlation_b == bb.unwrap(), "values");
        assert!(c.ytox_lf == x && c.ytob_lf == b, "low-frequency values");
        assert!(br.total_bits_read() == s.pos, "bits");
    }
});
