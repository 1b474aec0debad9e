// C30: the edge-preserving filter.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[allow(unused_imports)]
use crate::features::epf::SigmaSource;
#[cfg(not(kani))]
#[allow(dead_code)]
mod stage_run {
    include!(concat!(env!("JXL_VERIF_DIR"), "/stage_run.rs"));
}

// kind: proof(every position and both multipliers)
harness!(c30_border_multipliers, unwind = 26, {
    let (x, y) = (vrange(0, usize::MAX - 32), vrange(0, usize::MAX - 32));
    let (inner, border): (f32, f32) = (vany(), vany());
    let m = common::prepare_sad_mul_storage(x, y, inner, border);
    let i = vrange(0, 15);
    let at = |v: usize| v % 8 == 0 || v % 8 == 7;
    let want = if at(y) | at(x + i) { border } else { inner };
    vcover!(m[i].to_bits() == inner.to_bits(), "inside");
    assert!(m[i].to_bits() == want.to_bits(), "multiplier at the border of a block");
});

// kind: proof(every column of rows of up to four blocks and all sigmas)
harness!(c30_sigma_of_block, unwind = 26, {
    use jxl_simd::{F32SimdVec, ScalarDescriptor, SimdDescriptor};
    let d = ScalarDescriptor::new().unwrap();
    let row: [f32; 6] = [vany(), vany(), vany(), vany(), vany(), vany()];
    let x = vrange(0, 31);
    let s = common::get_sigma(d, x, common::SigmaRow::Variable(&row));
    let mut out = [0f32; 1];
    s.store(&mut out);
    assert!(out[0].to_bits() == row[x / 8].to_bits(), "sigma of the block");
    let s = common::get_sigma(d, x, common::SigmaRow::Constant(row[0]));
    s.store(&mut out);
    assert!(out[0].to_bits() == row[0].to_bits(), "constant sigma");
});

#[cfg(not(kani))]
fn filter(which: usize) {
    use crate::util::sync::{Arc, RwLock};
    use stage_run::*;
    let n = vrange(1, 40);
    let (x0, y0) = (8 * vrange(0, 4) + if vrange(0, 2) == 0 { vrange(0, 7) } else { 0 }, vrange(0, 40));
    let blocks = (x0 + n).div_ceil(8);
    let mut image = crate::image::Image::<f32>::new((blocks + 2, 6)).unwrap();
    let level = vrange(0, 3);
    let sigma = || -> f32 {
        match if level == 3 { vrange(0, 2) } else { level } {
            0 => -(vrange(1, 380) as f32) / 100.0,
            1 => -(vrange(1, 100) as f32) / 1000.0,
            _ => -4.0 - vrange(0, 100) as f32,
        }
    };
    for y in 0..6 {
        image.row_mut(y).iter_mut().for_each(|v| *v = sigma());
    }
    let fixed = sigma();
    let varies: bool = vany();
    let source = if varies { SigmaSource::Variable(Arc::new(image.try_clone().unwrap())) } else { SigmaSource::Constant(fixed) };
    let source = Arc::new(RwLock::new(source));
    let (scale, border) = (vrange(0, 200) as f32 / 100.0, vrange(0, 150) as f32 / 100.0);
    let cs = [0, 0, 0].map(|_: i32| vrange(0, 80) as f32 / 2.0);
    let kind = vrange(0, 4);
    let b = 3 - which;
    let rows: Vec<Rows> = (0..3).map(|_| around(n, (b, b), kind)).collect();
    let out = match which {
        0 => run_inout(&Epf0Stage::new(scale, border, cs, source), (x0, y0), n, &rows),
        1 => run_inout(&Epf1Stage::new(scale, border, cs, source), (x0, y0), n, &rows),
        _ => run_inout(&Epf2Stage::new(scale, border, cs, source), (x0, y0), n, &rows),
    };
    let plus = [(0, 0), (0, -1), (-1, 0), (1, 0), (0, 1)];
    for x in 0..n {
        let at = |c: usize, dx: i32, dy: i32| rows[c][(b as i32 + dy) as usize][(x as i32 + b as i32 + dx) as usize] as f64;
        let s = if varies { image.row(y0 / 8)[(x0 + x) / 8] } else { fixed };
        let edge = |v: usize| v % 8 == 0 || v % 8 == 7;
        let m = scale as f64 * 1.65 * if edge(x0 + x) || edge(y0) { border as f64 } else { 1.0 };
        let (mut sum, mut total, mut size) = ([0.0; 3], 0.0, 0.0f64);
        let far: i32 = if which == 0 { 2 } else { 1 };
        for dy in -far..=far {
            for dx in -far..=far {
                if dx.abs() + dy.abs() > far {
                    continue;
                }
                let mut d = 0.0;
                for c in 0..3 {
                    for (px, py) in if which == 2 { &plus[..1] } else { &plus[..] } {
                        d += cs[c] as f64 * (at(c, *px, *py) - at(c, dx + px, dy + py)).abs();
                    }
                }
                let w = (1.0 + d * s as f64 * m).max(0.0);
                total += w;
                for c in 0..3 {
                    sum[c] += w * at(c, dx, dy);
                    size = size.max(at(c, dx, dy).abs());
                }
            }
        }
        for c in 0..3 {
            let got = out[c][0][x];
            if s < -3.95 {
                assert!(got.to_bits() == (at(c, 0, 0) as f32).to_bits(), "sharp blocks are kept");
            } else {
                // Weights that are nearly zero are known to the precision of the sums they come from.
                let want = sum[c] / total;
                assert!((got as f64 - want).abs() <= 2e-4 * size + 1e-9, "sample {x} of channel {c} is {got}, not {want} (pass {which})");
            }
        }
    }
}
// kind: sampled(all sigmas, scales and positions, rows of up to 40 samples)
sampled!(c30_epf0_sampled, { filter(0); });
// kind: sampled(all sigmas, scales and positions, rows of up to 40 samples)
sampled!(c30_epf1_sampled, { filter(1); });
// kind: sampled(all sigmas, scales and positions, rows of up to 40 samples)
sampled!(c30_epf2_sampled, { filter(2); });
