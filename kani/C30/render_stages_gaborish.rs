// C30: the Gabor-like filter.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod stage_run {
    include!(concat!(env!("JXL_VERIF_DIR"), "/stage_run.rs"));
}
// kind: sampled(all weights from 0 to 0.6, rows of up to 70 samples)
sampled!(c30_gaborish_sampled, {
    use stage_run::*;
    let (w1, w2) = (vrange(0, 60) as f32 / 100.0, vrange(0, 60) as f32 / 100.0);
    let n = vrange(1, 70);
    let a = around(n, (1, 1), vrange(0, 4));
    let out = run_inout(&GaborishStage::new(vrange(0, 2), w1, w2), (vrange(0, 3000), vrange(0, 3000)), n, &[a.clone()]);
    let total = 1.0 + 4.0 * (w1 as f64 + w2 as f64);
    for x in 0..n {
        let at = |dx: usize, dy: usize| a[dy][x + dx] as f64;
        let (mut want, mut size) = (0.0, 0.0);
        for dy in 0..3 {
            for dx in 0..3 {
                let w = match (dx != 1) as u8 + (dy != 1) as u8 {
                    0 => 1.0,
                    1 => w1 as f64,
                    _ => w2 as f64,
                };
                want += w * at(dx, dy) / total;
                size += w * at(dx, dy).abs() / total;
            }
        }
        assert!(near(out[0][0][x], want, size), "sample {x} is {}, not {want}", out[0][0][x]);
    }
});
