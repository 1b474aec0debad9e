// C24: the noise generator.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};

/// SplitMix64's output function.
fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(13787848793156543929);
    z = (z ^ (z >> 27)).wrapping_mul(10723151780598845931);
    z ^ (z >> 31)
}
/// One lane of xorshift128+ (23, 18, 5): its output and next state.
fn step(a: u64, b: u64) -> (u64, (u64, u64)) {
    let t = a ^ (a << 23);
    (a.wrapping_add(b), (b, t ^ b ^ (t >> 18) ^ (b >> 5)))
}

// kind: proof
harness!(c24_generator_step, unwind = 9, {
    let (s0, s1): ([u64; 8], [u64; 8]) = (vany(), vany());
    let mut g = Xorshift128Plus { s0, s1 };
    let mut out: [u64; 8] = vany();
    g.fill(&mut out);
    let i = vrange(0, 7);
    let (o, (a, b)) = step(s0[i], s1[i]);
    assert!(out[i] == o && g.s0[i] == a && g.s1[i] == b, "each lane advances by one step");
});

// kind: proof
harness!(#[kani::solver(z3)] c24_mix, unwind = 2, {
    let z: u64 = vany();
    assert!(Xorshift128Plus::split_mix_64(z) == mix(z), "mixing function");
});

#[cfg(kani)]
fn opaque(z: u64) -> u64 {
    // Any function would do; this one tells chains of different lengths and starts apart.
    z.rotate_left(7) ^ 0x1234_5678_9abc_def1
}
#[cfg(not(kani))]
fn opaque(z: u64) -> u64 {
    mix(z)
}
// kind: proof
harness!(#[kani::stub(Xorshift128Plus::split_mix_64, opaque)] c24_seeds, unwind = 10, {
    let s: [u32; 4] = vany();
    let g = Xorshift128Plus::new_with_seeds(s[0], s[1], s[2], s[3]);
    // Lane i of either half: the golden-ratio offset pair of seeds, mixed i + 1 times.
    let golden = 0x9E37_79B9_7F4A_7C15u64;
    let mut a = ((s[0] as u64) << 32 | s[1] as u64).wrapping_add(golden);
    let mut b = ((s[2] as u64) << 32 | s[3] as u64).wrapping_add(golden);
    let mut i = 0;
    while i < 8 {
        a = opaque(a);
        b = opaque(b);
        assert!(g.s0[i] == a && g.s1[i] == b, "seeded state");
        i += 1;
    }
});

// kind: sampled(every seed, up to 40 steps)
sampled!(c24_sequence_sampled, {
    let s: [u32; 4] = vany();
    let mut g = Xorshift128Plus::new_with_seeds(s[0], s[1], s[2], s[3]);
    let golden = 0x9E37_79B9_7F4A_7C15u64;
    let mut a = ((s[0] as u64) << 32 | s[1] as u64).wrapping_add(golden);
    let mut b = ((s[2] as u64) << 32 | s[3] as u64).wrapping_add(golden);
    let mut lanes = vec![];
    for _ in 0..8 {
        a = mix(a);
        b = mix(b);
        lanes.push((a, b));
    }
    for _ in 0..vrange(1, 40) {
        let mut out = [0; 8];
        g.fill(&mut out);
        for i in 0..8 {
            let (o, n) = step(lanes[i].0, lanes[i].1);
            lanes[i] = n;
            assert!(out[i] == o, "sequence");
        }
    }
});
