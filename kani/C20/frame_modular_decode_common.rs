// C20: samples from residuals.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};

// kind: proof
harness!(c20_pixel, {
    let (dec, mul, guess): (i32, u32, i64) = (vany(), vany(), vany());
    vassume(mul < 1 << 31 && guess.unsigned_abs() < 1 << 60);
    // As unbounded integers, then the low 32 bits.
    let want = guess as i128 + mul as i128 * dec as i128;
    assert!(make_pixel(dec, mul, guess) == want as i32, "prediction plus scaled residual");
});
