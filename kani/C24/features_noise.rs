// C24: noise parameters and strength; the noise stages.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};

// kind: proof
tape_harness!(c24_parameters, unwind = 10, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let r = vok(Noise::read(&mut br));
    let mut w = [0f32; 8];
    let mut i = 0;
    while i < 8 {
        w[i] = s.read(10) as f32 * (1.0 / 1024.0);
        i += 1;
    }
    assert!(r.is_some() == !s.short, "truncated parameters are rejected");
    if let Some(n) = r {
        let i = vrange(0, 7);
        assert!(n.lut[i] == w[i] && br.total_bits_read() == s.pos, "strength table");
    }
});

fn any_noise() -> Noise {
    let mut lut = [0f32; 8];
    let mut i = 0;
    while i < 8 {
        lut[i] = vrange(0, 1023) as f32 / 1024.0;
        i += 1;
    }
    Noise { lut }
}

// kind: proof
harness!(c24_strength, unwind = 9, {
    let n = any_noise();
    let v: f32 = vany();
    let s = n.strength(v);
    assert!((0.0..=1.0).contains(&s), "a strength");
    // Between the entries around it.
    let t = if v > 0.0 { v * 6.0 } else { 0.0 };
    let i = vrange(0, 6);
    if t >= i as f32 && t <= (i + 1) as f32 || i == 6 && t >= 7.0 {
        let (a, b) = (n.lut[i], n.lut[i + 1]);
        let (lo, hi) = if a < b { (a, b) } else { (b, a) };
        assert!(s >= lo && s <= hi, "between its neighbours");
        if t == i as f32 {
            assert!(s == a, "an entry exactly");
        }
        if t >= 7.0 {
            assert!(s == n.lut[7], "the last entry beyond the table");
        }
    }
});

#[cfg(not(kani))]
fn strength(lut: &[f32; 8], v: f64) -> f64 {
    let t = (v * 6.0).max(0.0);
    let (i, f) = if t >= 7.0 { (6, 1.0) } else { (t.floor() as usize, t - t.floor()) };
    let (a, b) = (lut[i] as f64, lut[i + 1] as f64);
    (a + (b - a) * f).clamp(0.0, 1.0)
}
#[cfg(not(kani))]
fn real(lo: i64, hi: i64) -> f32 {
    crate::verif::vrange_i(lo * 65536, hi * 65536) as f32 / 65536.0
}

// kind: sampled(every table, brightness around and beyond the table)
sampled!(c24_strength_sampled, {
    let n = any_noise();
    let v = if vrange(0, 3) == 0 { vrange(0, 10) as f32 / 6.0 } else { real(-1, 3) };
    let w = strength(&n.lut, v as f64);
    assert!((n.strength(v) as f64 - w).abs() < 1e-5, "interpolated strength");
});

// kind: sampled(rows of up to 40 pixels)
sampled!(c24_add_noise_sampled, {
    use crate::frame::color_correlation_map::ColorCorrelationParams;
    use crate::render::RenderPipelineInPlaceStage;
    use crate::util::sync::{Arc, RwLock};
    let n = any_noise();
    let cc = ColorCorrelationParams { color_factor: vrange(1, 300) as u32, base_correlation_x: real(-2, 2), base_correlation_b: real(-2, 2), ytox_lf: vrange(0, 255) as i32 - 128, ytob_lf: vrange(0, 255) as i32 - 128 };
    let first = vrange(3, 5);
    let stage = crate::render::stages::AddNoiseStage::new(Arc::new(RwLock::new(n)), Arc::new(RwLock::new(cc)), first);
    for c in 0..10 {
        assert!(stage.uses_channel(c) == (c < 3 || c >= first && c < first + 3), "channels");
    }
    let w = vrange(1, 40);
    let pad = w + 16;
    let orig: Vec<Vec<f32>> = (0..6).map(|_| (0..pad).map(|_| real(-1, 2)).collect()).collect();
    let mut rows = orig.clone();
    {
        let mut refs: Vec<&mut [f32]> = rows.iter_mut().map(|r| &mut r[..]).collect();
        stage.process_row_chunk((vrange(0, 500), vrange(0, 500)), w, &mut refs, None);
    }
    let (kx, kb) = (cc.base_correlation_x as f64 + cc.ytox_lf as f64 / cc.color_factor as f64, cc.base_correlation_b as f64 + cc.ytob_lf as f64 / cc.color_factor as f64);
    for i in 0..w {
        let o: Vec<f64> = orig.iter().map(|r| r[i] as f64).collect();
        let sr = strength(&n.lut, (o[1] + o[0]) / 2.0);
        let sg = strength(&n.lut, (o[1] - o[0]) / 2.0);
        let red = sr * 0.22 * (o[3] / 128.0 + o[5] * 127.0 / 128.0);
        let green = sg * 0.22 * (o[4] / 128.0 + o[5] * 127.0 / 128.0);
        let want = [o[0] + kx * (red + green) + red - green, o[1] + red + green, o[2] + kb * (red + green)];
        for c in 0..3 {
            assert!((rows[c][i] as f64 - want[c]).abs() <= 2e-4 * (1.0 + kx.abs().max(kb.abs()) / 16.0), "noisy sample");
        }
        for c in 3..6 {
            assert!(rows[c][i] == orig[c][i], "the noise itself stays");
        }
    }
});

// kind: sampled(rows of up to 40 pixels)
sampled!(c24_convolve_sampled, {
    use crate::render::{Channels, ChannelsMut, RenderPipelineInOutStage};
    let k = vrange(0, 5);
    let stage = crate::render::stages::ConvolveNoiseStage::new(k);
    assert!((0..9).all(|c| stage.uses_channel(c) == (c == k)), "channel");
    let w = vrange(1, 40);
    let pad = w.next_multiple_of(16) + 20;
    let rows: Vec<Vec<f32>> = (0..5).map(|_| (0..pad).map(|_| 1.0 + real(0, 1)).collect()).collect();
    let mut out = vec![-7f32; pad];
    {
        let ins = rows.iter().map(|r| &r[..]).collect();
        let outs = std::iter::once(&mut out[..]).collect();
        stage.process_row_chunk((0, 0), w, &Channels::new(ins, 1, 5), &mut ChannelsMut::new(outs, 1, 1), None);
    }
    for x in 0..w {
        let sum: f64 = rows.iter().flat_map(|r| &r[x..x + 5]).map(|v| *v as f64).sum();
        let want = 0.16 * sum - 4.0 * rows[2][x + 2] as f64;
        assert!((out[x] as f64 - want).abs() < 1e-4, "high-pass noise");
    }
});
