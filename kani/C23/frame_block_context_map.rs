// C23: block context maps.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};

/// What the number of remaining nonzeros (per block) contributes.
fn remaining(n: usize) -> usize {
    match n {
        1 => 0,
        2 => 31,
        3..=4 => 62,
        5..=8 => 93,
        9..=12 => 123,
        13..=20 => 152,
        21..=32 => 180,
        _ => 206,
    }
}
/// What the position (per block) contributes.
fn position(k: usize) -> usize {
    if k < 16 { k - 1 } else if k < 32 { 15 + (k - 16) / 2 } else { 23 + (k - 32) / 4 }
}
// kind: proof
harness!(c23_coefficient_context, unwind = 2, {
    let log = vrange(0, 10);
    let k = vrange(1 << log, (64 << log) - 1);
    let left = vrange(1, 63 << log);
    let prev = vrange(0, 1);
    let c = zero_density_context(left, k, log, prev);
    let l = (left + (1 << log) - 1) >> log;
    assert!(c == (remaining(l) + position(k >> log)) * 2 + prev, "context of a coefficient");
    assert!(c < ZERO_DENSITY_CONTEXT_LIMIT, "within the padded contexts");
    // What fits in the rest of the block stays within the block's own contexts.
    assert!(left > (64 << log) - k || c < ZERO_DENSITY_CONTEXT_COUNT, "within the contexts");
    vcover!(c >= ZERO_DENSITY_CONTEXT_COUNT, "beyond the contexts");
});

// kind: proof
harness!(c23_nonzeros_context, unwind = 5, {
    let m = BlockContextMap { lf_thresholds: [vec![], vec![], vec![]], qf_thresholds: vec![], context_map: vec![], num_lf_contexts: 1, num_contexts: vrange(1, 16) };
    let n = vrange(0, 65536);
    let b = vrange(0, m.num_contexts - 1);
    let bucket = if n < 8 { n } else if n >= 64 { 36 } else { 4 + n / 2 };
    assert!(m.nonzero_context(n, b) == bucket * m.num_contexts + b, "context of the number of nonzeros");
    let o = m.zero_density_context_offset(b);
    assert!(o == 37 * m.num_contexts + 458 * b, "contexts of the coefficients of a block");
    assert!(m.nonzero_context(n, b) < 37 * m.num_contexts && o + 458 <= m.num_ac_contexts() && m.num_ac_contexts() == 495 * m.num_contexts, "disjoint contexts");
});

// kind: bounded(at most 3 quantizer thresholds)
harness!(c23_block_context, unwind = 6, {
    let mut t = Vec::from([vany::<u32>(), vany(), vany()]);
    let n = vrange(0, 3);
    t.truncate(n);
    let lf = vrange(1, 64);
    vassume(lf * (n + 1) <= 64);
    const LEN: usize = 39 * 64;
    let map: [u8; LEN] = vany();
    let m = BlockContextMap { lf_thresholds: [vec![], vec![], vec![]], qf_thresholds: t, context_map: Vec::from(map), num_lf_contexts: lf, num_contexts: 16 };
    let (l, q, s, c) = (vrange(0, lf - 1), vany::<u32>(), vrange(0, 12), vrange(0, 2));
    let above = (0..n).filter(|i| q > m.qf_thresholds[*i]).count();
    // Component order in the map: Y, X, B.
    let comp = [1, 0, 2][c];
    let i = ((comp * 13 + s) * (n + 1) + above) * lf + l;
    assert!(i < 39 * lf * (n + 1), "within the map");
    assert!(m.block_context(l, q, s, c) == map[i] as usize, "context of a block");
    std::mem::forget(m);
});

// kind: sampled(every number of thresholds, every kind of context map, damaged headers)
sampled!(c23_block_contexts_sampled, {
    use crate::verif::bits::*;
    let mut w = BitW::default();
    if vrange(0, 15) == 0 {
        w.put(1, 1);
        w.noise(2);
    } else {
        w.put(0, 1);
        let max = [1, 2, 3, 3, 15][vrange(0, 4)];
        let mut n = vec![];
        for i in 0..4 {
            let k = if vrange(0, 2) == 0 { 0 } else { vrange(0, max) };
            n.push(k);
            w.put(k as u64, 4);
            for _ in 0..k {
                let s = vrange(0, 3);
                w.put(s as u64, 2);
                w.put(vany::<u32>() as u64, if i < 3 { [4, 8, 16, 32][s] } else { [2, 3, 5, 8][s] });
            }
        }
        // Simple maps of up to 8 clusters, sometimes noise.
        let total = 39 * n.iter().map(|k| k + 1).product::<usize>();
        if vrange(0, 15) > 0 {
            let b = vrange(0, 3);
            w.put(1, 1);
            w.put(b as u64, 2);
            let skip = if vrange(0, 15) == 0 { 1 } else { 0 };
            for i in 0..total.min(39 * 64) {
                w.put((if i < 8 { i + skip } else { vrange(0, 7) } & ((1 << b) - 1)) as u64, b);
            }
        } else {
            w.noise(100);
        }
        if vrange(0, 15) == 0 {
            w.mutate();
        }
    }
    let mut br = BitReader::new(&w.data);
    let got = vok(BlockContextMap::read(&mut br));
    let mut s = BitS::new(&w.data);
    let mut lf: [Vec<i32>; 3] = Default::default();
    let mut qf = vec![];
    let mut contexts = 1;
    let short = |s: &BitS| s.short;
    let want = if s.bool() {
        let z = (0..13).map(|i| [0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6][i]).collect::<Vec<u8>>();
        let r = (0..13).map(|i| [7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14][i]).collect::<Vec<u8>>();
        Some([z, r.clone(), r].concat())
    } else {
        for l in lf.iter_mut() {
            let n = s.read(4);
            contexts *= n as usize + 1;
            for _ in 0..n {
                let v = match s.read(2) {
                    0 => s.read(4),
                    1 => s.read(8) + 16,
                    2 => s.read(16) + 272,
                    _ => s.read(32) + 65808,
                } as u32 as i64;
                l.push(if v % 2 == 0 { v / 2 } else { -(v + 1) / 2 } as i32);
            }
        }
        for _ in 0..s.read(4) {
            qf.push(match s.read(2) {
                0 => s.read(2),
                1 => s.read(3) + 4,
                2 => s.read(5) + 12,
                _ => s.read(8) + 44,
            } as u32 + 1);
        }
        if contexts * (qf.len() + 1) > 64 || short(&s) {
            None
        } else {
            let mut b2 = BitReader::new(&w.data);
            b2.skip_bits(s.pos).unwrap();
            let m = vok(decode_context_map(39 * contexts * (qf.len() + 1), &mut b2));
            s.pos = b2.total_bits_read();
            m.filter(|m| m.iter().all(|c| *c < 16))
        }
    };
    assert!(got.is_some() == (want.is_some() && !short(&s)), "accepted exactly when valid");
    let Some(g) = got else { return };
    let w = want.unwrap();
    assert!(br.total_bits_read() == s.pos, "bits");
    assert!(g.lf_thresholds == lf && g.qf_thresholds == qf && g.num_lf_contexts == contexts, "thresholds");
    assert!(g.num_contexts == *w.iter().max().unwrap() as usize + 1, "number of contexts");
    for _ in 0..20 {
        let (l, q, sh, c) = (vrange(0, contexts - 1), [vany::<u32>(), vrange(0, 320) as u32][vrange(0, 1)], vrange(0, 12), vrange(0, 2));
        let i = (([1, 0, 2][c] * 13 + sh) * (qf.len() + 1) + qf.iter().filter(|t| q > **t).count()) * contexts + l;
        assert!(g.block_context(l, q, sh, c) == w[i] as usize, "context of a block");
    }
});
