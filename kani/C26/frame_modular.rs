// C26: the low-frequency image and the block metadata of a VarDCT frame.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod vd {
    include!(concat!(env!("JXL_VERIF_DIR"), "/vardct.rs"));
}

#[cfg(not(kani))]
mod meta {
    use super::vd::*;
    use super::*;
    use crate::frame::{HfMetaSplitter, HfMetadata, LfImageSplitter};
    use crate::verif::bits::*;
    /// Width and height of the 27 transforms, in blocks.
    const DIM: [(usize, usize); 27] = [
        (1, 1), (1, 1), (1, 1), (1, 1), (2, 2), (4, 4), (1, 2), (2, 1), (1, 4), (4, 1), (2, 4), (4, 2), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1), (8, 8), (4, 8), (8, 4), (16, 16), (8, 16), (16, 8), (32, 32), (16, 32), (32, 16),
    ];
    fn views<'a, 'b>(s: &'a HfMetaSplitter<'b>, r: Rect, cr: Rect) -> HfMetaViews<'b, 'a> {
        HfMetaViews {
            ytox_map: s.ytox_map.borrow_typed_rect::<i8>(cr),
            ytob_map: s.ytob_map.borrow_typed_rect::<i8>(cr),
            raw_quant_map: s.raw_quant_map.borrow_typed_rect::<i32>(r),
            transform_map: s.transform_map.borrow_typed_rect::<u8>(r),
            epf_map: s.epf_map.borrow_typed_rect::<u8>(r),
        }
    }
    pub fn size() -> (usize, usize) {
        if vrange(0, 40) == 0 {
            if vany() { (vrange(2040, 2100), vrange(1, 40)) } else { (vrange(1, 40), vrange(2040, 2100)) }
        } else {
            (vrange(1, [64, 100, 300][vrange(0, 2)]), vrange(1, [64, 100, 300][vrange(0, 2)]))
        }
    }
    pub fn hf() {
        let (w, h) = size();
        let ycbcr = vrange(0, 3) == 0;
        let f = frame(w, h, ycbcr, 1);
        assert!(f.header.size_blocks() == f.size, "blocks of a frame");
        let groups = f.header.num_lf_groups();
        assert!(groups == f.size.0.div_ceil(256) * f.size.1.div_ceil(256), "low-frequency groups");
        let g = vrange(0, groups - 1);
        let (gx, gy) = (g % f.size.0.div_ceil(256), g / f.size.0.div_ceil(256));
        let r = Rect { origin: (gx * 256, gy * 256), size: ((f.size.0 - gx * 256).min(256), (f.size.1 - gy * 256).min(256)) };
        let cr = Rect { origin: (gx * 32, gy * 32), size: (r.size.0.div_ceil(8), r.size.1.div_ceil(8)) };
        let is444 = f.hs == [0; 3] && f.vs == [0; 3];
        let (bw, bh) = r.size;
        // Four transforms, quantizers, sharpness values and correlation factors each.
        let bad = vrange(0, 9) == 0;
        let pick = |n: usize| -> u32 {
            let i = vrange(0, n - 1);
            pack(if vrange(0, 30) == 0 && bad { [27, 28, -1, -28, 200, 256, 128, 129][vrange(0, 7)] } else { i as i32 })
        };
        let most = if !is444 { 4 } else { [27, 18, 12, 12, 18][vrange(0, 4)] };
        let mut ts: [u32; 4] = std::array::from_fn(|_| pick(most));
        ts[0] = pack([0, 0, 0, 1, 2, 3, 12, 17][vrange(0, 7)]);
        let mut leaf = [
            Four::new(std::array::from_fn(|_| pack([vrange(0, 255) as i32 - 128, vrange(0, 8000) as i32 - 4000, 0, -129, 127, 128, -128][vrange(0, 6)]))),
            Four::new(std::array::from_fn(|_| pack([vrange(0, 7) as i32, vrange(0, 7) as i32, vrange(0, 7) as i32, if bad { vrange(0, 40) as i32 - 20 } else { 0 }][vrange(0, 3)]))),
            Four::new(std::array::from_fn(|_| pack([vrange(0, 255) as i32, 255, 254, 256, vrange(0, 9000) as i32 - 4000][vrange(0, 4)]))),
            Four::new(ts),
        ];
        if !bad {
            // Keep the sorted, distinct symbols valid.
            leaf[1] = Four([0, 2, 4, 6].map(|x| x + 2 * vrange(0, 3) as u32 % 8));
            leaf[1] = Four::new(leaf[1].0);
            if leaf[1].0.iter().any(|x| x % 2 == 1 || *x > 14) {
                leaf[1] = Four([0, 4, 8, 14]);
            }
            let mut k = 0;
            while leaf[3].0.iter().any(|x| x % 2 == 1) {
                k += 2;
                leaf[3] = Four::new([ts[0], pack(k % 27), pack((k * 5 + 1) % 4), pack((k + 3) % 4 + 12)]);
            }
        }
        let val = |l: usize, v: u32| -> i32 {
            let x = leaf[l].0[v as usize];
            ((x >> 1) as i32) ^ -((x & 1) as i32)
        };
        // Lay out the blocks, mostly validly.
        let dim = |v: i32| if v >= 0 && v < 27 { Some(DIM[v as usize]) } else { None };
        let mut owner = vec![None; bw * bh];
        let mut list: Vec<(u32, u32)> = vec![];
        let mut ok = true;
        let careless = vrange(0, 9) == 0;
        'place: for y in 0..bh {
            for x in 0..bw {
                if owner[y * bw + x].is_some() {
                    continue;
                }
                let fits = |t: u32| -> Option<(usize, usize, bool)> {
                    let (cx, cy) = dim(val(3, t))?;
                    if (cx, cy) != (1, 1) && !is444 {
                        return None;
                    }
                    // Inside the image and inside one 256x256 group.
                    if x + cx > bw || y + cy > bh || x / 32 != (x + cx - 1) / 32 || y / 32 != (y + cy - 1) / 32 {
                        return None;
                    }
                    Some((cx, cy, (0..cx * cy).all(|i| owner[(y + i / cx) * bw + x + i % cx].is_none())))
                };
                let mut t = vrange(0, 3) as u32;
                if !careless && !matches!(fits(t), Some((_, _, true))) {
                    t = (0..4).rev().find(|t| matches!(fits(*t), Some((_, _, true)))).unwrap_or(t);
                }
                let q = vrange(0, 3) as u32;
                list.push((t, q));
                match fits(t) {
                    Some((cx, cy, true)) => {
                        for i in 0..cx * cy {
                            owner[(y + i / cx) * bw + x + i % cx] = Some((val(3, t), 1 + val(2, q).clamp(0, 255), i == 0));
                        }
                    }
                    _ => {
                        ok = false;
                        // Blocks enough for the rest of the image.
                        let one = (0..4).find(|t| dim(val(3, *t)) == Some((1, 1))).unwrap_or(0);
                        list.resize(bw * bh, (one, 0));
                        break 'place;
                    }
                }
            }
        }
        let mut count = list.len();
        if vrange(0, 12) == 0 {
            count = (count + vrange(0, 3)).clamp(2, bw * bh + 1) - 1;
        }
        if count < list.len() {
            ok = false;
        }
        let bits = log2(bw * bh);
        if count > 1 << bits {
            return;
        }
        let mut w = BitW::default();
        w.put(count as u64 - 1, bits);
        // channel > 1 ? (channel > 2 ? sharpness : (row > 0 ? quantizer : transform)) : correlation
        modular(&mut w, &[Some((0, 1)), Some((0, 2)), None, None, Some((2, 0)), None, None], &leaf);
        let put = |w: &mut BitW, l: usize, v: u32| leaf[l].put(w, leaf[l].0[v as usize]);
        let (cw, ch) = cr.size;
        let mut corr = vec![];
        for _ in 0..2 * cw * ch {
            let v = vrange(0, 3) as u32;
            corr.push(val(0, v).clamp(-128, 127) as i8);
            put(&mut w, 0, v);
        }
        for row in 0..2 {
            for i in 0..count {
                let (t, q) = list.get(i).copied().unwrap_or((0, 0));
                if row == 0 { put(&mut w, 3, t) } else { put(&mut w, 2, q) }
            }
        }
        let mut epf = vec![];
        for _ in 0..bw * bh {
            let v = vrange(0, 3) as u32;
            epf.push(val(1, v));
            ok &= val(1, v) >= 0 && val(1, v) < 8;
            put(&mut w, 1, v);
        }
        let mut data = w.data.clone();
        if vrange(0, 20) == 0 {
            let n = vrange(0, data.len() - 1);
            data.truncate(n);
            ok = false;
        }
        let fs = f.size;
        let ct = (fs.0.div_ceil(8), fs.1.div_ceil(8));
        let mut m = HfMetadata {
            ytox_map: Image::new(ct).unwrap(),
            ytob_map: Image::new(ct).unwrap(),
            raw_quant_map: Image::new(fs).unwrap(),
            transform_map: Image::new_with_value(fs, HfTransformType::INVALID_TRANSFORM).unwrap(),
            epf_map: Image::new(fs).unwrap(),
            quant_lf: Image::new(fs).unwrap(),
        };
        let got = {
            let s = HfMetaSplitter::new(&mut m);
            let mut v = views(&s, r, cr);
            decode_hf_metadata(g, &f.header, &f.meta, &None, &mut v, &mut BitReader::new(&data))
        };
        assert!(got.is_ok() == ok, "block metadata accepted");
        if !ok {
            return;
        }
        for y in 0..ch {
            for x in 0..cw {
                assert!(m.ytox_map.row(cr.origin.1 + y)[cr.origin.0 + x] == corr[y * cw + x], "correlation with X");
                assert!(m.ytob_map.row(cr.origin.1 + y)[cr.origin.0 + x] == corr[(ch + y) * cw + x], "correlation with B");
            }
        }
        for y in 0..bh {
            for x in 0..bw {
                let (ox, oy) = (r.origin.0 + x, r.origin.1 + y);
                let (t, q, first) = owner[y * bw + x].unwrap();
                assert!(m.transform_map.row(oy)[ox] == t as u8 | (first as u8) << 7, "transform of a block");
                assert!(m.raw_quant_map.row(oy)[ox] == q, "quantizer of a block");
                assert!(m.epf_map.row(oy)[ox] as i32 == epf[y * bw + x], "sharpness of a block");
            }
        }
    }
    pub fn lf() {
        let (w, h) = size();
        let ycbcr = vany();
        let f = frame(w, h, ycbcr, 1);
        let groups = f.header.num_lf_groups();
        let g = vrange(0, groups - 1);
        let (gx, gy) = (g % f.size.0.div_ceil(256), g / f.size.0.div_ceil(256));
        let r = Rect { origin: (gx * 256, gy * 256), size: ((f.size.0 - gx * 256).min(256), (f.size.1 - gy * 256).min(256)) };
        let is444 = f.hs == [0; 3] && f.vs == [0; 3];
        let leaf: [Four; 3] = std::array::from_fn(|_| Four::new(std::array::from_fn(|_| pack([vrange(0, 40) as i32 - 20, vrange(0, 600) as i32 - 300, vrange(0, 20000) as i32 - 9000, 0][vrange(0, 3)]))));
        let val = |l: usize, v: u32| -> i32 {
            let x = leaf[l].0[v as usize];
            ((x >> 1) as i32) ^ -((x & 1) as i32)
        };
        let mut b = BitW::default();
        let extra = vrange(0, 3);
        b.put(extra as u64, 2);
        // channel > 1 ? third : (channel > 0 ? second : first)
        modular(&mut b, &[Some((0, 1)), None, Some((0, 0)), None, None], &[leaf[2], leaf[1], leaf[0]]);
        // Coded in the order Y, X, B.
        let mut q: [Vec<i32>; 3] = [vec![], vec![], vec![]];
        let dim = |c: usize| (r.size.0 >> f.hs[c], r.size.1 >> f.vs[c]);
        for (i, c) in [1, 0, 2].into_iter().enumerate() {
            for _ in 0..dim(c).0 * dim(c).1 {
                let v = vrange(0, 3) as u32;
                q[c].push(val(i, v));
                leaf[i].put(&mut b, leaf[i].0[v as usize]);
            }
        }
        let mut data = b.data.clone();
        let short = vrange(0, 20) == 0;
        if short {
            let n = vrange(0, data.len() - 1);
            data.truncate(n);
        }
        let cc = ColorCorrelationParams {
            color_factor: [84, 256, vrange(2, 257) as u32, vrange(258, 65793) as u32][vrange(0, 3)],
            base_correlation_x: vrange(0, 64) as f32 / 16.0 - 2.0,
            base_correlation_b: vrange(0, 64) as f32 / 16.0 - 2.0,
            ytox_lf: vrange(0, 255) as i32 - 128,
            ytob_lf: vrange(0, 255) as i32 - 128,
        };
        let qp = QuantizerParams { global_scale: vrange(1, 73728) as u32, quant_lf: vrange(1, 65536) as u32 };
        let qf: [f32; 3] = std::array::from_fn(|_| vrange(1, 5000) as f32 / 4096.0);
        let lq = LfQuantFactors { quant_factors: qf, inv_quant_factors: qf.map(|x| 1.0 / x) };
        let nt = [vrange(0, 3), vrange(0, 3), vrange(0, 3)];
        let th: [Vec<i32>; 3] = std::array::from_fn(|i| {
            (0..if vany() { nt[i] } else { 0 }).map(|_| { let l = [1, 0, 2][i]; if vany() { val(l, vrange(0, 3) as u32) + vrange(0, 2) as i32 - 1 } else { vrange(0, 600) as i32 - 300 } }).collect()
        });
        let nctx = (th[0].len() + 1) * (th[1].len() + 1) * (th[2].len() + 1);
        let bctx = BlockContextMap { lf_thresholds: th.clone(), qf_thresholds: vec![], context_map: vec![], num_lf_contexts: nctx, num_contexts: 1 };
        let mut lf: [Image<f32>; 3] = std::array::from_fn(|_| Image::new(f.size).unwrap());
        let mut ql: Image<u8> = Image::new_with_value(f.size, 77).unwrap();
        let mut m = HfMetadata {
            ytox_map: Image::new((1, 1)).unwrap(), ytob_map: Image::new((1, 1)).unwrap(), raw_quant_map: Image::new((1, 1)).unwrap(),
            transform_map: Image::new((1, 1)).unwrap(), epf_map: Image::new((1, 1)).unwrap(), quant_lf: ql,
        };
        let got = {
            let s = LfImageSplitter::new(&mut lf);
            let hs = HfMetaSplitter::new(&mut m);
            let mut v = [s.borrow_rect(0, r), s.borrow_rect(1, r), s.borrow_rect(2, r)];
            let mut qv = hs.quant_lf.borrow_typed_rect::<u8>(r);
            decode_vardct_lf(g, &f.header, &f.meta, &None, &cc, &qp, &lq, &bctx, &mut v, &mut qv, &mut BitReader::new(&data))
        };
        ql = m.quant_lf;
        assert!(got.is_ok() == !short, "low frequencies accepted");
        if short {
            return;
        }
        let fac: [f64; 3] = std::array::from_fn(|c| qf[c] as f64 * 65536.0 / (qp.global_scale as f64 * qp.quant_lf as f64) / (1 << extra) as f64);
        let kx = cc.base_correlation_x as f64 + cc.ytox_lf as f64 / cc.color_factor as f64;
        let kb = cc.base_correlation_b as f64 + cc.ytob_lf as f64 / cc.color_factor as f64;
        let at = |c: usize, x: usize, y: usize| q[c][(y >> f.vs[c]) * dim(c).0 + (x >> f.hs[c])];
        for y in 0..r.size.1 {
            for x in 0..r.size.0 {
                let (ox, oy) = (r.origin.0 + x, r.origin.1 + y);
                let b: [usize; 3] = std::array::from_fn(|c| th[c].iter().filter(|t| at(c, x, y) > **t).count());
                let want = (b[0] * (th[2].len() + 1) + b[2]) * (th[1].len() + 1) + b[1];
                assert!(ql.row(oy)[ox] as usize == want, "low-frequency context of a block");
                for c in 0..3 {
                    // Subsampled components occupy the top left of the group.
                    if x >= dim(c).0 || y >= dim(c).1 {
                        continue;
                    }
                    let v = |c: usize| q[c][y * dim(c).0 + x] as f64 * fac[c];
                    let (want, mag) = if is444 && c != 1 {
                        let k = if c == 0 { kx } else { kb };
                        (v(c) + k * v(1), v(c).abs() + (k.abs() + 8.0) * v(1).abs())
                    } else {
                        (v(c), v(c).abs())
                    };
                    let got = lf[c].row(oy)[ox] as f64;
                    assert!((got - want).abs() <= 1e-5 * mag + 1e-30, "low-frequency sample");
                }
            }
        }
        // Nothing else changes.
        for _ in 0..20 {
            let (x, y) = (vrange(0, f.size.0 - 1), vrange(0, f.size.1 - 1));
            if x < r.origin.0 || y < r.origin.1 || x >= r.origin.0 + r.size.0 || y >= r.origin.1 + r.size.1 {
                assert!(ql.row(y)[x] == 77 && (0..3).all(|c| lf[c].row(y)[x] == 0.0), "other groups stay as they are");
            }
        }
    }
}
// kind: sampled(frames of up to 300x300 or one side up to 2100, every subsampling, damaged and overlapping layouts)
sampled!(c26_blocks_sampled, { meta::hf() });
// kind: sampled(frames of up to 300x300 or one side up to 2100, every subsampling)
sampled!(c26_lf_sampled, { meta::lf() });

// kind: proof
harness!(c26_transforms, unwind = 3, {
    // Width and height in blocks of the transform of each code.
    let want: [(u32, u32); 27] = [
        (1, 1), (1, 1), (1, 1), (1, 1), (2, 2), (4, 4), (1, 2), (2, 1), (1, 4), (4, 1), (2, 4), (4, 2), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1), (8, 8), (4, 8), (8, 4), (16, 16), (8, 16), (16, 8), (32, 32), (16, 32), (32, 16),
    ];
    let i: usize = vany();
    match HfTransformType::from_usize(i) {
        None => assert!(i >= 27, "every defined code has a transform"),
        Some(t) => {
            assert!(i < 27 && t as usize == i, "codes of transforms");
            assert!(covered_blocks_x(t) == want[i].0 && covered_blocks_y(t) == want[i].1, "blocks of a transform");
            assert!(i != HfTransformType::INVALID_TRANSFORM as usize && i < 128, "never the mark of an empty place");
        }
    }
});
#[cfg(not(kani))]
fn stream_ids() {
    let lim = [600, 3000, 100000][vrange(0, 2)];
    let f = vd::frame(vrange(1, lim), vrange(1, lim), vrange(0, 2) == 0, vrange(1, 3));
    let up = |a: usize, b: usize| a.div_ceil(b);
    let (bw, bh) = f.size;
    let lf = up(bw, 256) * up(bh, 256);
    let groups = up(bw, 32) * up(bh, 32);
    let (l, g, p, q) = (vrange(0, lf - 1), vrange(0, groups - 1), vrange(0, 10), vrange(0, 16));
    let id = |s: ModularStreamId| s.get_id(&f.header);
    assert!(id(ModularStreamId::GlobalData) == 0, "global stream");
    assert!(id(ModularStreamId::VarDCTLF(l)) == 1 + l, "low-frequency streams");
    assert!(id(ModularStreamId::ModularLF(l)) == 1 + lf + l, "low-frequency modular streams");
    assert!(id(ModularStreamId::LFMeta(l)) == 1 + 2 * lf + l, "metadata streams");
    assert!(id(ModularStreamId::QuantTable(q)) == 1 + 3 * lf + q, "quantization table streams");
    assert!(id(ModularStreamId::ModularHF { pass: p, group: g }) == 18 + 3 * lf + p * groups + g, "group streams");
}
// kind: sampled(frames of up to 100000x100000, all streams)
sampled!(c26_stream_ids_sampled, { stream_ids() });
