// C25: high-frequency coefficients of a group.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod vd {
    include!(concat!(env!("JXL_VERIF_DIR"), "/vardct.rs"));
}

/// Width and height of the 27 transforms, in blocks.
const DIM: [(usize, usize); 27] = [
    (1, 1), (1, 1), (1, 1), (1, 1), (2, 2), (4, 4), (1, 2), (2, 1), (1, 4), (4, 1), (2, 4), (4, 2), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1), (8, 8), (4, 8), (8, 4), (16, 16), (8, 16), (16, 8), (32, 32), (16, 32), (32, 16),
];

#[cfg(not(kani))]
mod run {
    use super::vd::*;
    use super::*;
    use crate::entropy_coding::decode::Histograms;
    use crate::frame::PassState;
    use crate::frame::coeff_order::decode_coeff_orders;
    use crate::frame::color_correlation_map::ColorCorrelationParams;
    use crate::frame::modular::FullModularImage;
    use crate::frame::quantizer::{LfQuantFactors, QuantizerParams};
    use crate::headers::permutation::Permutation;
    use crate::util::sync::Mutex;
    use crate::verif::bits::*;

    thread_local! {
        static ORDERS: Vec<Permutation> = decode_coeff_orders(0, &mut BitReader::new(&[])).unwrap();
        static TABLES: std::cell::RefCell<Option<DequantMatrices>> = const { std::cell::RefCell::new(None) };
    }
    fn lf_global(f: &Frame, b: BlockContextMap) -> LfGlobalState {
        LfGlobalState {
            lf_quant: LfQuantFactors::default(),
            quant_params: Some(QuantizerParams { global_scale: 1000, quant_lf: 10 }),
            block_context_map: Some(b),
            color_correlation_params: Some(ColorCorrelationParams::default()),
            tree: None,
            modular_global: FullModularImage::read(&f.header, &f.meta, 0, &mut BitReader::new(&[])).unwrap(),
            total_bits_read: 0,
        }
    }
    struct Pass {
        /// Code of every context.
        map: Vec<usize>,
        codes: Vec<Four>,
        orders: Vec<Permutation>,
        bits: Vec<u8>,
    }
    /// The plain reading of one pass over a group: false if the stream is invalid.
    #[allow(clippy::too_many_arguments)]
    fn decode(p: &Pass, shift: u32, nh: usize, f: &Frame, blocks: &[(usize, usize, usize)], rect: Rect, m: &HfMetadata, b: &BlockContextMap, out: &mut [Vec<i32>; 3]) -> bool {
        let mut s = BitS::new(&p.bits);
        let hi = s.read(log2(nh)) as usize;
        if hi >= nh {
            return false;
        }
        let all = b.num_contexts * 495;
        let mut sym = |s: &mut BitS, ctx: usize| {
            let c = p.codes[p.map[ctx]];
            let i = s.read(1) * 2;
            let i = i + s.read(1);
            c.0[i as usize]
        };
        let mut nz: [Vec<usize>; 3] = std::array::from_fn(|_| vec![0; 64 * 64]);
        let mut at = 0;
        for &(x, y, t) in blocks {
            let (cx, cy) = DIM[t];
            let n = cx * cy;
            let (gx, gy) = (rect.origin.0 + x, rect.origin.1 + y);
            for c in [1, 0, 2] {
                let (sx, sy) = (x >> f.hs[c], y >> f.vs[c]);
                if sx << f.hs[c] != x || sy << f.vs[c] != y {
                    continue;
                }
                let m_at = |x: usize, y: usize| nz[c][y * 64 + x];
                let pred = match (sx, sy) {
                    (0, 0) => 32,
                    (_, 0) => m_at(sx - 1, 0),
                    (0, _) => m_at(0, sy - 1),
                    _ => (m_at(sx - 1, sy) + m_at(sx, sy - 1) + 1) / 2,
                };
                let shape = block_shape_id(HfTransformType::from_usize(t).unwrap()) as usize;
                let bc = b.block_context(m.quant_lf.row(gy)[gx] as usize, m.raw_quant_map.row(gy)[gx] as u32, shape, c);
                let mut left = sym(&mut s, hi * all + b.nonzero_context(pred, bc)) as usize;
                if left > 63 * n {
                    return false;
                }
                for i in 0..n {
                    nz[c][(sy + i / cx) * 64 + sx + i % cx] = left.div_ceil(n);
                }
                let order = &p.orders[shape * 3 + c];
                let mut prev = (left <= 4 * n) as usize;
                for k in n..64 * n {
                    if left == 0 {
                        break;
                    }
                    if left > 64 * n - k {
                        return false;
                    }
                    let ctx = hi * all + b.num_contexts * 37 + 458 * bc + zero_density_context(left, k, n.ilog2() as usize, prev);
                    let v = sym(&mut s, ctx);
                    let v = ((v >> 1) as i32) ^ -((v & 1) as i32);
                    prev = (v != 0) as usize;
                    left -= prev;
                    out[c][at + order[k] as usize] += v << shift;
                }
                if left > 0 {
                    return false;
                }
            }
            at += 64 * n;
        }
        !s.short
    }
    pub fn group() {
        let big = vrange(0, 30) == 0;
        let lim = [24, 64, 130][vrange(0, 2)];
        let (w, h) = if big { (vrange(200, 300), vrange(200, 300)) } else { (vrange(1, lim), vrange(1, lim)) };
        let ycbcr = vrange(0, 2) == 0;
        let np = [1, 1, 2, 3][vrange(0, 3)];
        let f = frame(w, h, ycbcr, np);
        let groups = w.div_ceil(256) * h.div_ceil(256);
        let g = vrange(0, groups - 1);
        let (gx, gy) = (g % w.div_ceil(256), g / w.div_ceil(256));
        let rect = Rect { origin: (gx * 32, gy * 32), size: ((f.size.0 - gx * 32).min(32), (f.size.1 - gy * 32).min(32)) };
        let is444 = f.hs == [0; 3] && f.vs == [0; 3];
        // Block contexts.
        let mut bctx = BlockContextMap::read(&mut BitReader::new(&[1])).unwrap();
        if vany() {
            let nq = vrange(0, 3);
            bctx.qf_thresholds = (0..nq).map(|_| vrange(1, 300) as u32).collect();
            bctx.num_lf_contexts = vrange(1, 4);
            let n = 39 * bctx.num_lf_contexts * (nq + 1);
            let k = vrange(1, [2, 5, 16][vrange(0, 2)]);
            bctx.context_map = (0..n).map(|i| if i == 0 { k - 1 } else { vrange(0, k - 1) } as u8).collect();
            bctx.num_contexts = k;
        }
        // Metadata.
        let ct = (f.size.0.div_ceil(8), f.size.1.div_ceil(8));
        let mut m = HfMetadata {
            ytox_map: Image::new(ct).unwrap(), ytob_map: Image::new(ct).unwrap(),
            raw_quant_map: Image::new_with_value(f.size, 1).unwrap(), transform_map: Image::new_with_value(f.size, 0).unwrap(),
            epf_map: Image::new(f.size).unwrap(), quant_lf: Image::new(f.size).unwrap(),
        };
        let mut blocks = vec![];
        let mut used = vec![false; 32 * 32];
        let most = [3, 17, 26, 26][vrange(0, 3)];
        for y in 0..rect.size.1 {
            for x in 0..rect.size.0 {
                let (ox, oy) = (rect.origin.0 + x, rect.origin.1 + y);
                m.quant_lf.row_mut(oy)[ox] = vrange(0, bctx.num_lf_contexts - 1) as u8;
                if used[y * 32 + x] {
                    continue;
                }
                let mut t = if is444 { vrange(0, most) } else { [0, 1, 2, 3, 12, 13, 14, 15, 16, 17][vrange(0, 9)] };
                let fits = |t: usize| x + DIM[t].0 <= rect.size.0 && y + DIM[t].1 <= rect.size.1 && (0..DIM[t].0 * DIM[t].1).all(|i| !used[(y + i / DIM[t].0) * 32 + x + i % DIM[t].0]);
                if !fits(t) {
                    t = 0;
                }
                let q = vrange(1, 256) as i32;
                for i in 0..DIM[t].0 * DIM[t].1 {
                    let (dx, dy) = (i % DIM[t].0, i / DIM[t].0);
                    used[(y + dy) * 32 + x + dx] = true;
                    m.transform_map.row_mut(oy + dy)[ox + dx] = t as u8 | ((i == 0) as u8) << 7;
                    m.raw_quant_map.row_mut(oy + dy)[ox + dx] = q;
                }
                blocks.push((x, y, t));
            }
        }
        // Passes.
        let nh = [1, 1, 2, 3, 5][vrange(0, 4)];
        let per = bctx.num_contexts * 495;
        let passes: Vec<Pass> = (0..np).map(|_| {
            let mut codes: Vec<Four> = (0..8).map(|i| {
                if i < 4 {
                    Four::new([0, vrange(0, 3) as u32, vrange(0, 12) as u32, vrange(0, [20, 63, 64, 300][vrange(0, 3)]) as u32])
                } else {
                    Four::new([0, 0, 0, 0].map(|_: i32| vrange(0, [3, 8, 200, 32000][vrange(0, 3)]) as u32))
                }
            }).collect();
            if vrange(0, 2) == 0 {
                for c in &mut codes[4..] {
                    if c.0[0] == 0 {
                        *c = Four([1, 2, 3, 4].map(|x| x + c.0[1]));
                    }
                }
            }
            let nz = bctx.num_contexts * 37;
            let map = (0..nh * per).map(|i| if i < 4 { i } else if i >= nz && i < nz + 4 { 4 + i - nz } else if i % per < nz { vrange(0, 3) } else { 4 + vrange(0, 3) }).collect();
            let mut orders = ORDERS.with(|o| o.clone());
            for (i, o) in orders.iter_mut().enumerate() {
                if vrange(0, 3) == 0 && i < 13 * 3 {
                    let n = o.len() / 64;
                    let mut v = o.to_vec();
                    for _ in 0..10 {
                        let (a, b) = (vrange(n, v.len() - 1), vrange(n, (v.len() - 1).min(n + 20)));
                        v.swap(a, b);
                    }
                    *o = Permutation(v.into());
                }
            }
            let mut b = BitW::default();
            let hi = if vrange(0, 20) == 0 { vrange(0, (1 << log2(nh)) - 1) } else { vrange(0, nh - 1) };
            b.put(hi as u64, log2(nh));
            let n = if vrange(0, 20) == 0 { vrange(0, 40) } else { blocks.len() * 3 * 12 + blocks.iter().map(|b| DIM[b.2].0 * DIM[b.2].1).sum::<usize>() * 12 + 64 };
            let mut x = vany::<u64>() | 1;
            for _ in 0..n {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                b.put(x >> 20 & 255, 8);
            }
            Pass { map, codes, orders, bits: b.data }
        }).collect();
        let stored = np > 1 || vrange(0, 3) == 0;
        let mut lg = lf_global(&f, BlockContextMap { lf_thresholds: [vec![], vec![], vec![]], qf_thresholds: bctx.qf_thresholds.clone(), context_map: bctx.context_map.clone(), num_lf_contexts: bctx.num_lf_contexts, num_contexts: bctx.num_contexts });
        let dequant_matrices = TABLES.with(|t| t.borrow_mut().take()).unwrap_or_else(|| DequantMatrices::decode(&f.header, &lg, &mut BitReader::new(&[1])).unwrap());
        let mut hg = HfGlobalState {
            num_histograms: nh as u32,
            passes: passes.iter().map(|p| {
                let mut b = BitW::default();
                codes(&mut b, &p.map, &p.codes);
                let mut histograms = Histograms::decode(p.map.len(), &mut BitReader::new(&b.data), true).unwrap();
                histograms.resize(p.map.len() + 16);
                PassState { coeff_orders: p.orders.clone(), histograms }
            }).collect(),
            dequant_matrices,
            hf_coefficients: if stored { (0..groups).map(|_| Mutex::new(vec![0; 3 * 65536])).collect() } else { vec![] },
        };
        let mut want: [Vec<i32>; 3] = std::array::from_fn(|_| vec![0; 65536]);
        let lf_image: [Image<f32>; 3] = std::array::from_fn(|_| Image::new(f.size).unwrap());
        let mut buffers = VarDctBuffers::new();
        buffers.ensure_allocated().unwrap();
        if vany() {
            buffers.coeffs_storage[vrange(0, 3 * 65536 - 1)] = 5;
        }
        // Passes arrive together or one by one.
        let together = vany();
        let mut done = 0;
        while done < np {
            let n = if together || !stored { np } else { vrange(done + 1, np) };
            let mut ok = true;
            for i in done..n {
                ok &= decode(&passes[i], f.shifts.get(i).copied().unwrap_or(0), nh, &f, &blocks, rect, &m, lg.block_context_map.as_ref().unwrap(), &mut want);
            }
            let mut brs: Vec<(usize, BitReader)> = (done..n).map(|i| (i, BitReader::new(&passes[i].bits))).collect();
            let got = decode_vardct_group(g, &mut brs, &f.header, &lg, &hg, &m, &lf_image, &[0.0; 4], &mut None, &mut buffers);
            assert!(got.is_ok() == ok, "coefficients accepted");
            if !ok {
                break;
            }
            let lock;
            let have: &[i32] = if stored {
                lock = hg.hf_coefficients[g].try_lock().unwrap();
                &lock
            } else {
                &buffers.coeffs_storage
            };
            for c in 0..3 {
                assert!(have[c * 65536..(c + 1) * 65536] == want[c][..], "coefficients of component {c}");
            }
            done = n;
        }
        TABLES.with(|t| *t.borrow_mut() = Some(hg.dequant_matrices));
        let _ = &mut lg;
    }
    /// One block's worth of dequantisation.
    pub fn dequant() {
        let f = frame(8, 8, false, 1);
        let lg = lf_global(&f, BlockContextMap::read(&mut BitReader::new(&[1])).unwrap());
        let tables = TABLES.with(|t| t.borrow_mut().take()).unwrap_or_else(|| DequantMatrices::decode(&f.header, &lg, &mut BitReader::new(&[1])).unwrap());
        let t = vrange(0, if vrange(0, 5) == 0 { 26 } else { 11 });
        let tt = HfTransformType::from_usize(t).unwrap();
        let n = DIM[t].0 * DIM[t].1;
        let q: [Vec<i32>; 3] = std::array::from_fn(|_| (0..64 * n).map(|_| [0, vrange(0, 2) as i32 - 1, vrange(0, 10) as i32 - 5, vrange(0, 60000) as i32 - 30000][vrange(0, 3)]).collect());
        let mut r = || vrange(1, 4000) as f32 / 1000.0;
        let (igs, xm, bm, biases) = (r() * 20.0, r(), r(), [r(), r(), r(), r()]);
        let (kx, kb) = (r() - 2.0, r() - 2.0);
        let quant = vrange(1, 256) as u32;
        let mut out: [Vec<f32>; 3] = std::array::from_fn(|_| vec![7.0; MAX_COEFF_AREA]);
        let mut go = |which: usize| {
            let qs = [&q[0][..], &q[1][..], &q[2][..]];
            macro_rules! with { ($d:expr) => { dequant_block($d, tt, igs, quant, xm, bm, kx, kb, 64 * n, &tables, n, &biases, &qs, &mut out) } }
            let _ = which;
            with!(jxl_simd::ScalarDescriptor::new().unwrap());
        };
        go(0);
        let w = tables.matrix(tt, 0);
        for k in 0..64 * n {
            let adj = |c: usize| {
                let v = q[c][k] as f64;
                if v.abs() < 2.0 { v * biases[c] as f64 } else { v - biases[3] as f64 / v }
            };
            let s = igs as f64 / quant as f64;
            let y = adj(1) * w[64 * n + k] as f64 * s;
            let x = adj(0) * w[k] as f64 * s * xm as f64;
            let b = adj(2) * w[2 * 64 * n + k] as f64 * s * bm as f64;
            for (c, want, mag) in [(0, x + kx as f64 * y, x.abs() + (kx as f64 * y).abs()), (1, y, y.abs()), (2, b + kb as f64 * y, b.abs() + (kb as f64 * y).abs())] {
                assert!((out[c][k] as f64 - want).abs() <= 2e-6 * mag + 1e-30, "dequantised coefficient");
            }
        }
        TABLES.with(|t| *t.borrow_mut() = Some(tables));
    }
}
// kind: sampled(groups of up to 32x32 blocks, all transforms and subsamplings, up to 3 passes, 5 histogram sets and 16 block contexts)
sampled!(c25_group_sampled, { run::group() });
// kind: sampled(all transforms, coefficients up to 30000)
sampled!(c25_dequant_sampled, { run::dequant() });

// kind: bounded(a map of 2x2 blocks)
harness!(c25_predicted_nonzeros, unwind = 6, {
    let (w, h) = (2, 2);
    let mut m: Image<u32> = Image::new((w, h)).unwrap();
    let v: [u32; 4] = [vrange(0, 63) as u32, vrange(0, 63) as u32, vrange(0, 63) as u32, vrange(0, 63) as u32];
    m.row_mut(0).copy_from_slice(&v[..2]);
    m.row_mut(1).copy_from_slice(&v[2..]);
    let (x, y) = (vrange(0, 1), vrange(0, 1));
    let got = predict_num_nonzeros(&m, x, y) as u32;
    let want = if x == 0 && y == 0 { 32 } else if x == 0 { v[0] } else if y == 0 { v[0] } else { (v[1] + v[2] + 1) / 2 };
    assert!(got == want && got < 64, "predicted number of nonzeros");
    std::mem::forget(m);
});

// kind: proof
harness!(c25_dequant_bias, unwind = 3, {
    let d = jxl_simd::ScalarDescriptor::new().unwrap();
    let q: i32 = vany();
    let c = vrange(0, 2);
    let b = [0.9453125f32, 0.9375, 0.953125, 0.14453125];
    let mut out = [0f32; 1];
    adjust_quant_bias(d, c, I32SimdVec::load(d, &[q]), &b).store(&mut out);
    let g = out[0];
    if q == 0 {
        assert!(g == 0.0);
    } else if q == 1 || q == -1 {
        assert!(g == q as f32 * b[c], "bias of the smallest coefficients");
    } else if q == i32::MIN {
        // Not a coefficient of any valid stream: only panics are of interest.
    } else {
        let f = q as f32;
        assert!(if q > 0 { g <= f && g >= f - 0.125 } else { g >= f && g <= f + 0.125 }, "larger coefficients move a little towards zero");
    }
});
