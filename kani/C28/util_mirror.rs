// C28: reads beyond an edge are reflected, edges repeating.
#[allow(unused_imports)]
use crate::verif::{harness, vany, vassume, vcover, vrange, vrange_i};

// kind: proof(any size from 16, any position up to 16 beyond either end)
harness!(#[kani::solver(z3)] c28_mirror, unwind = 4, {
    let s = vrange(16, 1 << 30);
    let v = vrange_i(-16, (1 << 30) + 15) as isize;
    vassume(v < s as isize + 16);
    let r = mirror(v, s);
    vcover!(v < 0, "case 1");
    vcover!(v >= s as isize, "case 2");
    let want = if v < 0 { -1 - v } else if v >= s as isize { 2 * s as isize - 1 - v } else { v };
    assert!(r as isize == want, "reflected position");
});
// kind: proof(any size up to 16, any position up to 16 beyond either end)
harness!(c28_mirror_small, unwind = 35, {
    let s = vrange(1, 16);
    let v = vrange_i(-16, 31) as isize;
    vassume(v < s as isize + 16);
    let r = mirror(v, s);
    vcover!(s == 1 && v == -16, "case 3");
    vcover!(s == 3 && v == 10, "case 4");
    assert!(r < s, "inside");
    // The image and its reflection alternate.
    let p = v.rem_euclid(2 * s as isize) as usize;
    assert!(r == if p < s { p } else { 2 * s - 1 - p }, "reflected position");
});
