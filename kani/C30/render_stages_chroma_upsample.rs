// C30: upsampling of chroma channels.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod stage_run {
    include!(concat!(env!("JXL_VERIF_DIR"), "/stage_run.rs"));
}
// kind: sampled(rows of up to 70 samples, both directions)
sampled!(c30_chroma_sampled, {
    use stage_run::*;
    let n = vrange(1, 70);
    let kind = vrange(0, 4);
    let pos = (vrange(0, 999), vrange(0, 999));
    let horizontal: bool = vany();
    let a = around(n, if horizontal { (1, 0) } else { (0, 1) }, kind);
    let out = if horizontal { run_inout(&HorizontalChromaUpsample::new(1), pos, n, &[a.clone()]) } else { run_inout(&VerticalChromaUpsample::new(2), pos, n, &[a.clone()]) };
    for x in 0..n {
        for second in [0, 1] {
            let (cur, other, got) = if horizontal {
                (a[0][x + 1], a[0][x + 2 * second], out[0][0][2 * x + second])
            } else {
                (a[1][x], a[2 * second][x], out[0][second][x])
            };
            let want = (3.0 * cur as f64 + other as f64) / 4.0;
            assert!(near(got, want, (cur.abs() + other.abs()) as f64), "new sample {second} of {x} is {got}, not {want}");
        }
    }
});
