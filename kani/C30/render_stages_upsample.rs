// C30: upsampling by two, four and eight.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod stage_run {
    include!(concat!(env!("JXL_VERIF_DIR"), "/stage_run.rs"));
}
#[allow(dead_code)]
fn factors() -> CustomTransformData {
    CustomTransformData::default(&crate::headers::CustomTransformDataNonserialized { xyb_encoded: true })
}
/// Weight of the tap `t` samples from the first one for the `i`-th of `n` new samples, in one direction: its place among 5n/2.
#[allow(dead_code)]
fn place(n: usize, i: usize, t: usize) -> usize {
    if i < n / 2 { 5 * i + t } else { 5 * (n - 1 - i) + 4 - t }
}
/// Weights are the upper triangle of a symmetric matrix, row by row.
#[allow(dead_code)]
fn weight(n: usize, a: usize, b: usize) -> usize {
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    let size = 5 * n / 2;
    // Rows before this one have size, size - 1, ... entries.
    (size + size + 1 - lo) * lo / 2 + hi - lo
}
// kind: proof(all weights of the double upsampling)
harness!(c30_weights_of_two, unwind = 102, {
    let mut f = factors();
    f.weights2 = [vany(), vany(), vany(), vany(), vany(), vany(), vany(), vany(), vany(), vany(), vany(), vany(), vany(), vany(), vany()];
    let u = Upsample2x::new(&f, 0);
    assert!(u.flat_kernels.len() == 4, "a kernel for each new sample");
    let (i, j) = (vrange(0, 1), vrange(0, 1));
    let (ty, tx) = (vrange(0, 4), vrange(0, 4));
    let got = u.flat_kernels[2 * i + j][5 * ty + tx];
    let want = f.weights2[weight(2, place(2, i, ty), place(2, j, tx))];
    vcover!((i == 1) & (tx == 4), "mirrored");
    assert!(got.to_bits() == want.to_bits(), "weight of a tap");
    std::mem::forget(u);
});

// kind: proof(every weight of the fourfold upsampling, known by its number)
harness!(c30_weights_of_four, unwind = 402, {
    let mut f = factors();
    for i in 0..55 {
        f.weights4[i] = f32::from_bits(i as u32);
    }
    let u = Upsample4x::new(&f, 0);
    assert!(u.flat_kernels.len() == 16, "a kernel for each new sample");
    let (i, j) = (vrange(0, 3), vrange(0, 3));
    let (ty, tx) = (vrange(0, 4), vrange(0, 4));
    let got = u.flat_kernels[4 * i + j][5 * ty + tx];
    assert!(got.to_bits() as usize == weight(4, place(4, i, ty), place(4, j, tx)), "weight of a tap");
    std::mem::forget(u);
});
// kind: sampled(all weights, rows of up to 40 samples, all three factors)
sampled!(c30_upsampling_sampled, {
    use stage_run::*;
    let mut f = factors();
    let symbolic = vrange(0, 1) == 0;
    let w = || if symbolic { vrange(0, 2000) as f32 / 1000.0 - 0.8 } else { vrange(0, 120) as f32 / 1000.0 - 0.02 };
    f.weights2.iter_mut().for_each(|v| *v = w());
    f.weights4.iter_mut().for_each(|v| *v = w());
    f.weights8.iter_mut().for_each(|v| *v = w());
    let n = vrange(1, 40);
    let a = around(n, (2, 2), vrange(0, 4));
    let at = (vrange(0, 999), vrange(0, 999));
    let k = 1 << vrange(1, 3);
    let (out, weights): (_, &[f32]) = match k {
        2 => (run_inout(&Upsample2x::new(&f, 1), at, n, &[a.clone()]), &f.weights2),
        4 => (run_inout(&Upsample4x::new(&f, 0), at, n, &[a.clone()]), &f.weights4),
        _ => (run_inout(&Upsample8x::new(&f, 2), at, n, &[a.clone()]), &f.weights8),
    };
    for x in 0..n {
        let (mut min, mut max) = (f64::MAX, f64::MIN);
        for r in &a {
            for v in &r[x..x + 5] {
                min = min.min(*v as f64);
                max = max.max(*v as f64);
            }
        }
        for i in 0..k {
            for j in 0..k {
                let (mut want, mut size) = (0.0, 0.0);
                for ty in 0..5 {
                    for tx in 0..5 {
                        let p = weights[weight(k, place(k, i, ty), place(k, j, tx))] as f64 * a[ty][x + tx] as f64;
                        want += p;
                        size += p.abs();
                    }
                }
                let want = want.max(min).min(max);
                let got = out[0][i][k * x + j];
                assert!(near(got, want, size), "new sample {i}, {j} of {x} is {got}, not {want}");
                assert!(got as f64 >= min && got as f64 <= max, "new samples lie between old ones");
            }
        }
    }
});
