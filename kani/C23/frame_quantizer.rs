// C23: quantizer headers.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};

// kind: proof
tape_harness!(c23_quantizer, unwind = 8, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let r = vok(QuantizerParams::read(&mut br));
    let scale = s.u32_sel([(11, 1), (11, 2049), (12, 4097), (16, 8193)]);
    let lf = s.u32_sel([(0, 16), (5, 1), (8, 1), (16, 1)]);
    assert!(r.is_some() == !s.short, "truncated headers are rejected");
    if let Some(q) = r {
        vcover!(q.quant_lf == 65536 && q.global_scale == 73728, "largest");
        assert!(q.global_scale as u64 == scale && q.quant_lf as u64 == lf, "values");
        assert!(br.total_bits_read() == s.pos, "bits");
    }
});

// kind: proof
harness!(c23t_scale, unwind = 2, { scale() });
// kind: sampled(every scale)
sampled!(c23_scale_sampled, { scale() });
fn scale() {
    let q = QuantizerParams { global_scale: vrange(1, 73728) as u32, quant_lf: vrange(1, 65536) as u32 };
    let inv = q.inv_global_scale();
    #[cfg(not(kani))]
    assert!((q.inv_quant_lf() as f64 * q.quant_lf as f64 / inv as f64 - 1.0).abs() < 1e-6, "inverse of the low-frequency scale");
    // The nearest float to 65536 / scale: off by less than its own last bit.
    let e = inv as f64 * q.global_scale as f64 - 65536.0;
    assert!(e.abs() <= 65536.0 / 16777216.0, "inverse of the global scale");
}

// kind: proof
tape_harness!(c23_lf_quant, unwind = 14, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let r = vok(LfQuantFactors::new(&mut br));
    let mut w = [1.0 / 4096.0, 1.0 / 512.0, 1.0 / 256.0];
    let mut ok = true;
    if !s.bool() {
        let mut i = 0;
        while i < 3 {
            if ok {
                match s.f16() {
                    Some(v) if v / 128.0 >= 1e-8 => w[i] = v / 128.0,
                    _ => ok = false,
                }
            }
            i += 1;
        }
    }
    assert!(r.is_some() == (ok && !s.short), "rejected exactly when not positive, not finite or cut short");
    if let Some(q) = r {
        let i = vrange(0, 2);
        assert!(q.quant_factors[i] == w[i], "factor");
        assert!(br.total_bits_read() == s.pos, "bits");
    }
});
