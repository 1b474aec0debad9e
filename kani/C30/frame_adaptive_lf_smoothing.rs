// C30: smoothing of low frequencies, and the strength of the edge-preserving filter in every block.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod stage_run {
    include!(concat!(env!("JXL_VERIF_DIR"), "/stage_run.rs"));
}
#[cfg(not(kani))]
#[allow(dead_code)]
mod vardct {
    include!(concat!(env!("JXL_VERIF_DIR"), "/vardct.rs"));
}
#[cfg(not(kani))]
struct AnyOrder;
#[cfg(not(kani))]
impl JxlParallelRunner for AnyOrder {
    fn run(&mut self, num: usize, fun: &crate::api::JxlParallelRunnerFun<'_>) -> Result<()> {
        let start = vrange(0, num.max(1) - 1);
        for i in 0..num {
            fun((start + num - i) % num)?;
        }
        Ok(())
    }
}
// kind: sampled(low-frequency images of up to 20x20 and at the borders of groups)
sampled!(c30_lf_smoothing_sampled, {
    let wide = vrange(0, 400) == 0;
    let (w, h) = if wide {
        if vany() { (vrange(254, 262), vrange(1, 4)) } else { (vrange(1, 4), vrange(254, 262)) }
    } else {
        (vrange(1, 20), vrange(1, 20))
    };
    let f = vardct::frame(8 * w, 8 * h, false, 1);
    let factors = [0, 0, 0].map(|_: i32| vrange(1, 400) as f32 / 100.0);
    let kind = vrange(0, 4);
    let mut im = [0, 0, 0].map(|_: i32| Image::<f32>::new((w, h)).unwrap());
    let base = stage_run::sample(kind);
    for c in 0..3 {
        let near = vrange(0, 2);
        for y in 0..h {
            for v in im[c].row_mut(y) {
                *v = if near == 0 { stage_run::sample(kind) } else { base + factors[c] * (vrange(0, 200) as f32 / 100.0 - 1.0) };
            }
        }
    }
    let old: Vec<Vec<Vec<f32>>> = (0..3).map(|c| (0..h).map(|y| im[c].row(y).to_vec()).collect()).collect();
    adaptive_lf_smoothing(factors, &f.header, &mut im, &mut AnyOrder).unwrap();
    let (ws, wc) = (0.20345139757231578f64, 0.0334829185968739f64);
    for y in 0..h {
        for x in 0..w {
            let border = y == 0 || x == 0 || y + 1 == h || x + 1 == w;
            let mut gap = 0.5f64;
            let mut smooth = [0.0; 3];
            let mut size = 0.0f64;
            for c in 0..3 {
                if border {
                    break;
                }
                let at = |dx: usize, dy: usize| old[c][y + dy - 1][x + dx - 1] as f64;
                for dy in 0..3 {
                    for dx in 0..3 {
                        let k = match (dx != 1) as u8 + (dy != 1) as u8 {
                            0 => 1.0 - 4.0 * (ws + wc),
                            1 => ws,
                            _ => wc,
                        };
                        smooth[c] += k * at(dx, dy);
                        size = size.max(at(dx, dy).abs());
                    }
                }
                gap = gap.max((at(1, 1) - smooth[c]).abs() / factors[c] as f64);
            }
            for c in 0..3 {
                let (got, was) = (im[c].row(y)[x], old[c][y][x] as f64);
                if border {
                    assert!(got as f64 == was, "borders are kept");
                } else {
                    let want = was + (smooth[c] - was) * (3.0 - 4.0 * gap).max(0.0);
                    // The gap is known to the precision of the samples over the quantisation step.
                    let slope = 4.0 * (smooth[c] - was).abs() * 1e-6 * size / factors.iter().fold(f32::MAX, |a, b| a.min(*b)) as f64;
                    assert!((got as f64 - want).abs() <= 1e-5 * size + slope, "sample {x}, {y} of {c} is {got}, not {want}");
                }
            }
        }
    }
});
// kind: sampled(frames of up to 24x24 blocks, all transforms, quantisers and sharpness tables)
sampled!(c30_epf_strength_sampled, {
    use crate::bit_reader::BitReader;
    use crate::features::epf::SigmaSource;
    use crate::frame::modular::FullModularImage;
    use crate::frame::quantizer::{LfQuantFactors, QuantizerParams};
    use crate::frame::{HfMetadata, LfGlobalState};
    const DIM: [(usize, usize); 27] = [
        (1, 1), (1, 1), (1, 1), (1, 1), (2, 2), (4, 4), (1, 2), (2, 1), (1, 4), (4, 1), (2, 4), (4, 2), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1),
        (8, 8), (4, 8), (8, 4), (16, 16), (8, 16), (16, 8), (32, 32), (16, 32), (32, 16),
    ];
    let (w, h) = (vrange(1, 190), vrange(1, 190));
    let ycbcr = vrange(0, 2) == 0;
    let mut f = vardct::frame(w, h, ycbcr, 1);
    let rf = &mut f.header.restoration_filter;
    rf.epf_sharp_lut = [0; 8].map(|_| vrange(0, 100) as f32 / 70.0);
    rf.epf_quant_mul = vrange(1, 200) as f32 / 100.0;
    rf.epf_sigma_for_modular = vrange(1, 300) as f32 / 100.0;
    let rf = f.header.restoration_filter.clone();
    let scale = vrange(1, 65535) as u32;
    let lf = LfGlobalState {
        lf_quant: LfQuantFactors::default(),
        quant_params: Some(QuantizerParams { global_scale: scale, quant_lf: 10 }),
        block_context_map: None,
        color_correlation_params: None,
        tree: None,
        modular_global: FullModularImage::read(&f.header, &f.meta, 0, &mut BitReader::new(&[])).unwrap(),
        total_bits_read: 0,
    };
    if vrange(0, 9) == 0 {
        f.header.encoding = crate::headers::frame_header::Encoding::Modular;
        let Ok(SigmaSource::Constant(s)) = SigmaSource::new(&f.header, &lf, &None) else { panic!("one sigma") };
        assert!(stage_run::near(s, -1.1715728752538099024 / rf.epf_sigma_for_modular as f64, 0.0), "sigma of modular frames");
        return;
    }
    let (bw, bh) = f.size;
    let ct = (bw.div_ceil(8), bh.div_ceil(8));
    let mut m = HfMetadata {
        ytox_map: Image::new(ct).unwrap(), ytob_map: Image::new(ct).unwrap(),
        raw_quant_map: Image::new_with_value((bw, bh), 1).unwrap(), transform_map: Image::new_with_value((bw, bh), 0).unwrap(),
        epf_map: Image::new((bw, bh)).unwrap(), quant_lf: Image::new((bw, bh)).unwrap(),
    };
    let mut quant = vec![0i32; bw * bh];
    for y in 0..bh {
        for x in 0..bw {
            m.epf_map.row_mut(y)[x] = vrange(0, 7) as u8;
            if quant[y * bw + x] != 0 {
                continue;
            }
            let mut t = vrange(0, [3, 17, 26][vrange(0, 2)]);
            let (tx, ty) = DIM[t];
            if x + tx > bw || y + ty > bh || (0..tx * ty).any(|i| quant[(y + i / tx) * bw + x + i % tx] != 0) {
                t = 0;
            }
            let (tx, ty) = DIM[t];
            let q = vrange(1, 256) as i32;
            for i in 0..tx * ty {
                let (px, py) = (x + i % tx, y + i / tx);
                quant[py * bw + px] = q;
                m.transform_map.row_mut(py)[px] = t as u8 | ((i == 0) as u8) << 7;
                // Only the first block of a transform says how it is quantised.
                m.raw_quant_map.row_mut(py)[px] = if i == 0 { q } else { vrange(0, 256) as i32 };
            }
        }
    }
    let some = Some(m);
    let Ok(SigmaSource::Variable(im)) = SigmaSource::new(&f.header, &lf, &some) else { panic!("sigma of every block") };
    let m = some.unwrap();
    assert!(im.size().0 >= bw + 2 && im.size().1 >= bh, "room for vectors");
    for y in 0..bh {
        for x in 0..bw {
            let sharp = rf.epf_sharp_lut[m.epf_map.row(y)[x] as usize] as f64;
            let sigma = rf.epf_quant_mul as f64 * sharp * 65536.0 / (scale as f64 * quant[y * bw + x] as f64 * -1.1715728752538099024);
            let want = 1.0 / sigma.min(-1e-4);
            assert!(stage_run::near(im.row(y)[x], want, 0.0), "sigma of block {x}, {y} is {}, not {want}", im.row(y)[x]);
        }
    }
});
