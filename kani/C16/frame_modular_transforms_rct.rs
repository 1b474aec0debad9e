// C16: reversible colour transforms.
// native: simd
#[allow(unused_imports)]
use crate::headers::bit_depth::BitDepth;
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};
#[allow(dead_code)]
mod modref {
    include!(concat!(env!("JXL_VERIF_DIR"), "/modref.rs"));
}

fn one<const OP: u32>(v: [i32; 3]) -> [i32; 3] {
    let d = ScalarDescriptor::new().unwrap();
    type V = <ScalarDescriptor as SimdDescriptor>::I32Vec;
    let (a, b, c) = rct_impl::<_, OP>(d, V::splat(d, v[0]), V::splat(d, v[1]), V::splat(d, v[2]));
    let mut o = [0; 3];
    a.store(&mut o[0..1]);
    b.store(&mut o[1..2]);
    c.store(&mut o[2..3]);
    o
}
fn eq(a: [i32; 3], b: [i32; 3]) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2]
}
// kind: proof
harness!(c16_rct_sample, unwind = 5, {
    let v = [vany(), vany(), vany()];
    let op: u32 = vany();
    vassume(op < 7);
    let o = match op {
        0 => one::<0>(v),
        1 => one::<1>(v),
        2 => one::<2>(v),
        3 => one::<3>(v),
        4 => one::<4>(v),
        5 => one::<5>(v),
        _ => one::<6>(v),
    };
    assert!(eq(o, modref::rct(op, v)), "inverse transform of one sample");
});
// The forward transform of the format, undone by the decoder.
// kind: proof
harness!(c16_rct_lossless, unwind = 5, {
    let (r, g, b): (i16, i16, i16) = (vany(), vany(), vany());
    let (r, g, b) = (r as i32, g as i32, b as i32);
    // YCoCg forward.
    let co = r - b;
    let t = b + (co >> 1);
    let cg = g - t;
    let y = t + (cg >> 1);
    assert!(eq(one::<6>([y, co, cg]), [r, g, b]), "YCoCg");
    assert!(eq(one::<3>([r, g - r, b - r]), [r, g, b]), "subtract first");
    assert!(eq(one::<5>([r, g - ((r + b) >> 1), b - r]), [r, g, b]), "subtract average");
});

fn step(t: u32, w: usize, h: usize, mut gen_: impl FnMut() -> i32) {
    let mut ch = [0, 1, 2].map(|_| ModularChannel::new((w, h), BitDepth::integer_samples(8)).unwrap());
    let mut want = [0, 1, 2].map(|_| modref::Ch::new(w, h, Some((0, 0))));
    for c in 0..3 {
        for y in 0..h {
            for x in 0..w {
                let v = gen_();
                ch[c].data.row_mut(y)[x] = v;
                want[c].px[y * w + x] = v;
            }
        }
    }
    use num_traits::FromPrimitive;
    let [a, b, c] = &mut ch;
    do_rct_step(&mut [a, b, c], RctOp::from_u32(t % 7).unwrap(), RctPermutation::from_u32(t / 7).unwrap());
    for i in 0..w * h {
        let v = modref::rct(t, [want[0].px[i], want[1].px[i], want[2].px[i]]);
        for c in 0..3 {
            assert!(ch[c].data.row(i / w)[i % w] == v[c], "type {t}");
        }
    }
}
// kind: sampled(channels up to 70x3, every type, the instruction sets of this machine)
sampled!(c16_rct_step_sampled, {
    let wide: bool = vany();
    step(vrange(0, 41) as u32, vrange(1, 70), vrange(1, 3), || if wide { vany() } else { vrange(0, 511) as i32 - 256 });
});
