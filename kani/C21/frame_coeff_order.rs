// C21: orders of the high-frequency coefficients.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod entropy {
    include!(concat!(env!("JXL_VERIF_DIR"), "/entropy.rs"));
}

/// Blocks covered by the 13 orders, wider than tall, as in the format's table.
const SHAPE: [(usize, usize); 13] = [(1, 1), (1, 1), (2, 2), (4, 4), (2, 1), (4, 1), (4, 2), (8, 8), (8, 4), (16, 16), (16, 8), (32, 32), (32, 16)];

/// The natural order: low frequencies row by row, then the rest by diagonals of the square the block stretches to,
/// alternately upwards and downwards.
#[cfg(not(kani))]
fn natural(cx: usize, cy: usize) -> Vec<u32> {
    let (w, h, ratio) = (cx * 8, cy * 8, cx / cy);
    let mut p: Vec<(usize, usize, usize)> = vec![];
    for y in 0..h {
        for x in 0..w {
            let d = x + y * ratio;
            let key = if x < cx && y < cy {
                (0, y, x)
            } else {
                (1 + d, if d % 2 == 0 { x } else { y }, 0)
            };
            p.push((key.0 << 40 | key.1 << 20 | key.2, x, y));
        }
    }
    p.sort();
    p.iter().map(|(_, x, y)| (y * w + x) as u32).collect()
}

// kind: sampled(all 13 transforms)
sampled!(c21_natural_order, {
    let i = vrange(0, 12);
    let (cx, cy) = SHAPE[i];
    let want = natural(cx, cy);
    let got = natural_coeff_order(TRANSFORM_TYPE_LUT[i]);
    assert!(got == want, "natural order");
    assert!(**get_natural_coeff_order(i) == *want, "cached natural order");
    assert!(block_shape_id(TRANSFORM_TYPE_LUT[i]) as usize == i, "order of a transform");
    // Every transform uses the order of its shape or of the transposed shape.
    let t = vrange(0, 26);
    let tt = HfTransformType::from_usize(t).unwrap();
    let (a, b) = (covered_blocks_x(tt) as usize, covered_blocks_y(tt) as usize);
    let id = block_shape_id(tt) as usize;
    assert!((a.max(b), a.min(b)) == SHAPE[id] && (id == 1) == (matches!(t, 1 | 2 | 3 | 12..=17)), "order of a transform");
    assert!(HfTransformType::from_usize(vrange(27, 1000)).is_none(), "transforms");
});

// kind: sampled(orders of up to 256 blocks, any set of orders, every kind of entropy code, damaged headers)
sampled!(c21_orders_sampled, {
    let mut w = crate::verif::bits::BitW::default();
    let mut used = vany::<u32>() & [0x5f, 0x13, 0x3f, 0x7f, 0x1fff][[0, 0, 0, 1, 1, 2, 2, 3, 3, 4][vrange(0, 9)]];
    if vrange(0, 3) == 0 {
        used = 1 << vrange(0, 6);
    }
    if vrange(0, 30) > 0 {
        used &= 0x7f;
    }
    entropy::codes(&mut w, 8, vrange(0, 4));
    let n = if vrange(0, 7) == 0 { vrange(0, 40) } else { 1200 };
    // Mostly small values, so that the codes stay valid.
    let p = vrange(0, 8) as u8;
    for _ in 0..n {
        let b: u8 = vany();
        w.put(if b & 7 < p { b } else { 0 } as u64, 8);
    }
    if vrange(0, 7) == 0 {
        w.mutate();
    }
    let mut br = BitReader::new(&w.data);
    let mut b2 = BitReader::new(&w.data);
    let got = vok(decode_coeff_orders(used, &mut br));
    // One permutation after the other (C08), applied to the natural orders.
    let mut coded: Vec<Option<Permutation>> = vec![None; 39];
    let want = (|| -> Result<()> {
        if used == 0 {
            return Ok(());
        }
        let h = Histograms::decode(8, &mut b2, true)?;
        let mut r = SymbolReader::new(&h, &mut b2, None)?;
        for o in 0..13 {
            if used >> o & 1 == 1 {
                let n = (SHAPE[o].0 * SHAPE[o].1) as u32;
                for c in 0..3 {
                    coded[o * 3 + c] = Some(Permutation::decode(n * 64, n, &h, &mut b2, &mut r)?);
                }
            }
        }
        r.check_final_state(&h, &mut b2)
    })();
    assert!(got.is_some() == want.is_ok(), "accepted exactly when valid");
    let Some(got) = got else { return };
    assert!(br.total_bits_read() == b2.total_bits_read(), "bits");
    assert!(got.len() == 39, "an order for every transform and component");
    for o in 0..13 {
        if SHAPE[o].0 > 8 && used >> o & 1 == 0 && vrange(0, 7) > 0 {
            continue;
        }
        let nat = natural(SHAPE[o].0, SHAPE[o].1);
        for c in 0..3 {
            let g = &got[o * 3 + c];
            assert!(g.len() == nat.len(), "length");
            match &coded[o * 3 + c] {
                None => assert!(**g == *nat, "natural order"),
                Some(p) => assert!((0..nat.len()).all(|i| g[i] == nat[p[i] as usize]), "permuted natural order"),
            }
        }
    }
});

// kind: proof
harness!(c21_shapes, unwind = 4, {
    let t: usize = vany();
    let r = HfTransformType::from_usize(t);
    assert!(r.is_some() == (t < 27), "transforms");
    if let Some(tt) = r {
        let (a, b) = (covered_blocks_x(tt) as usize, covered_blocks_y(tt) as usize);
        let id = block_shape_id(tt) as usize;
        assert!(tt as usize == t && id < 13);
        let s = SHAPE[id];
        assert!(if a > b { s.0 == a && s.1 == b } else { s.0 == b && s.1 == a }, "order of a transform");
        assert!((id == 1) == (t >= 1 && t <= 3 || t >= 12 && t <= 17), "special 8x8 transforms");
        let u = TRANSFORM_TYPE_LUT[id];
        assert!(covered_blocks_x(u) as usize == s.0 && covered_blocks_y(u) as usize == s.1 && block_shape_id(u) as usize == id, "transform of an order");
    }
});

/// Order of two places in the natural order of a block of cx by cy blocks: smaller keys first.
fn key(p: usize, cx: usize, cy: usize) -> usize {
    let (x, y) = (p % (cx * 8), p / (cx * 8));
    if x < cx && y < cy {
        y * cx + x
    } else {
        let d = x + y * (cx / cy);
        (1 + d) << 16 | if d % 2 == 0 { x } else { y }
    }
}
fn order<const I: usize>() {
    let (cx, cy) = SHAPE[I];
    let o = natural_coeff_order(TRANSFORM_TYPE_LUT[I]);
    assert!(o.len() == cx * cy * 64, "length");
    // Strictly increasing keys: every place at most once, hence exactly once, and in order.
    let k = vrange(0, o.len() - 2);
    assert!((o[k] as usize) < o.len() && (o[k + 1] as usize) < o.len(), "within the block");
    assert!(key(o[k] as usize, cx, cy) < key(o[k + 1] as usize, cx, cy), "natural order");
    std::mem::forget(o);
}
// kind: proof
harness!(c21_natural_8x8, unwind = 66, { order::<0>() });
// kind: proof
harness!(c21t_natural_16x8, unwind = 130, { order::<4>() });
// kind: proof
harness!(c21t_natural_16x16, unwind = 260, { order::<2>() });
