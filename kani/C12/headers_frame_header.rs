// C12: frame headers and the frame geometry derived from them.
#[allow(unused_imports)]
use crate::verif::{Rd, harness, sampled, vany, vassume, vcover, vok, vrange};

/// The default frame header (what an all-default header decodes to, minus its derived fields).
fn header() -> FrameHeader {
    let b = BlendingInfo { mode: BlendingMode::Replace, alpha_channel: 0, clamp: false, source: 0 };
    let r = RestorationFilter {
        all_default: true, gab: true, gab_custom: false, gab_x_weight1: 0.0, gab_x_weight2: 0.0, gab_y_weight1: 0.0, gab_y_weight2: 0.0,
        gab_b_weight1: 0.0, gab_b_weight2: 0.0, epf_iters: 2, epf_sharp_custom: false, epf_sharp_lut: [0.0; 8], epf_weight_custom: false,
        epf_channel_scale: [0.0; 3], epf_pass1_zeroflush: 0.0, epf_pass2_zeroflush: 0.0, epf_sigma_custom: false, epf_quant_mul: 0.0,
        epf_pass0_sigma_scale: 0.0, epf_pass2_sigma_scale: 0.0, epf_border_sad_mul: 0.0, epf_sigma_for_modular: 0.0, extensions: Extensions::default(),
    };
    FrameHeader {
        all_default: true, frame_type: FrameType::RegularFrame, encoding: Encoding::VarDCT, flags: 0, do_ycbcr: false, jpeg_upsampling: [0; 3],
        upsampling: 1, ec_upsampling: Vec::new(), group_size_shift: 1, x_qm_scale: 3, b_qm_scale: 2,
        passes: Passes { num_passes: 1, num_ds: 0, shift: Vec::new(), downsample: Vec::new(), last_pass: Vec::new() },
        lf_level: 0, have_crop: false, x0: 0, y0: 0, frame_width: 0, frame_height: 0, completely_covers: true, full_frame: true,
        blending_info: b, ec_blending_info: Vec::new(), duration: 0, timecode: 0, is_last: true, save_as_reference: 0, can_be_referenced: false,
        save_before_ct_def_false: false, save_before_ct: false, name: String::new(), restoration_filter: r, extensions: Extensions::default(),
        width: 1, height: 1, maxhs: 0, maxvs: 0, num_extra_channels: 0,
    }
}
fn up(a: usize, b: usize) -> usize {
    a / b + (a % b != 0) as usize
}
/// A frame header with an arbitrary geometry: any size up to `max`, upsampling, DC level, subsampling and group size.
fn any_geometry(max: usize, groups: usize) -> FrameHeader {
    let mut f = header();
    f.width = vrange(1, max) as u32;
    f.height = vrange(1, max) as u32;
    f.upsampling = 1 << vrange(0, 3);
    f.lf_level = vrange(0, 4) as u32;
    f.maxhs = vrange(0, 1) as u32;
    f.maxvs = vrange(0, 1) as u32;
    f.group_size_shift = vrange(0, groups) as u32;
    f.encoding = if vany() { Encoding::VarDCT } else { Encoding::Modular };
    f
}

/// The sizes of a frame, by the definition of each.
fn sizes_upsampled(f: &FrameHeader) {
    let (w, h) = (f.width as usize, f.height as usize);
    let u = f.size_upsampled();
    let k = 1usize << (3 * f.lf_level);
    assert!(u.0 * k >= w && (u.0 - 1) * k < w && u.1 * k >= h && (u.1 - 1) * k < h, "upsampled size");
    let s = f.size();
    let p = f.upsampling as usize;
    assert!(s.0 * p >= u.0 && (s.0 - 1) * p < u.0 && s.1 * p >= u.1 && (s.1 - 1) * p < u.1, "coded size");
}
fn sizes_blocks(f: &FrameHeader) {
    let s = f.size();
    let b = f.size_blocks();
    let (bw, bh) = (8usize << f.maxhs, 8usize << f.maxvs);
    assert!(b.0 % (1 << f.maxhs) == 0 && b.1 % (1 << f.maxvs) == 0, "whole subsampled blocks");
    assert!(b.0 * 8 >= s.0 && b.0 * 8 - bw < s.0 && b.1 * 8 >= s.1 && b.1 * 8 - bh < s.1, "fewest blocks that cover the frame");
    let want = if f.encoding == Encoding::Modular { s } else { (b.0 * 8, b.1 * 8) };
    let p = f.upsampling as usize;
    assert!(f.size_padded() == want && f.size_padded_upsampled() == (want.0 * p, want.1 * p), "padded size");
}
fn sizes_groups(f: &FrameHeader) {
    let (s, b, g) = (f.size(), f.size_blocks(), f.group_dim());
    assert!(g == 128 << f.group_size_shift && f.lf_group_dim() == 8 * g && 1 << f.log_group_dim() == g, "group size");
    let (gx, gy) = f.size_groups();
    assert!(gx * g >= s.0 && (gx - 1) * g < s.0 && gy * g >= s.1 && (gy - 1) * g < s.1, "groups");
    let (lx, ly) = f.size_lf_groups();
    assert!(lx * g >= b.0 && (lx - 1) * g < b.0 && ly * g >= b.1 && (ly - 1) * g < b.1, "LF groups");
}
// kind: proof
harness!(c12_sizes, unwind = 6, {
    let mut f = any_geometry(1 << 30, 3);
    let mut l = 0;
    while l <= 4 {
        f.lf_level = l;
        let mut p = 1;
        while p <= 8 {
            f.upsampling = p;
            sizes_upsampled(&f);
            p *= 2;
        }
        l += 1;
    }
    std::mem::forget(f);
});
// The rest depends on the frame only through its coded size, which is arbitrary here.
// kind: proof
harness!(c12_block_sizes, unwind = 6, {
    let mut f = any_geometry(1 << 30, 3);
    f.lf_level = 0;
    f.upsampling = 1;
    let mut s = 0;
    while s < 4 {
        f.maxhs = s & 1;
        f.maxvs = s >> 1;
        sizes_blocks(&f);
        s += 1;
    }
    std::mem::forget(f);
});
// kind: proof
harness!(c12_group_counts, unwind = 6, {
    let mut f = any_geometry(1 << 30, 3);
    f.lf_level = 0;
    f.upsampling = 1;
    let mut s = 0;
    while s < 4 {
        f.group_size_shift = s;
        f.maxhs = 0;
        f.maxvs = 0;
        sizes_groups(&f);
        f.maxhs = 1;
        f.maxvs = 1;
        sizes_groups(&f);
        s += 1;
    }
    std::mem::forget(f);
});
// kind: sampled(every combination, frames up to 2^30 pixels on each side)
sampled!(c12_any_sizes_sampled, {
    let f = any_geometry(1 << 30, 3);
    sizes_upsampled(&f);
    sizes_blocks(&f);
    sizes_groups(&f);
    std::mem::forget(f);
});

/// Group `i` of a grid of `n` cells of size `d` over `size`: exactly the cell's share.
fn cell(r: Rect, i: usize, n: (usize, usize), d: usize, size: (usize, usize)) {
    let (gx, gy) = (r.origin.0 / d, r.origin.1 / d);
    assert!(r.origin.0 % d == 0 && r.origin.1 % d == 0 && gx < n.0 && gy * n.0 + gx == i, "raster order");
    assert!(r.size.0 == d.min(size.0 - r.origin.0) && r.size.1 == d.min(size.1 - r.origin.1), "clipped to the frame");
}
fn rects(f: &FrameHeader, lf: bool) {
    let s = f.size();
    let b = f.size_blocks();
    let g = f.group_dim();
    if lf {
        let i = vrange(0, f.num_lf_groups() - 1);
        cell(f.lf_group_rect(i), i, f.size_lf_groups(), g, b);
    } else {
        let i = vrange(0, f.num_groups() - 1);
        let n = f.size_groups();
        cell(f.group_rect(i), i, n, g, s);
        cell(f.block_group_rect(i), i, n, g / 8, b);
    }
}
// kind: bounded(frames of at most 4 groups in each direction)
harness!(c12_group_rects, unwind = 10, {
    let mut f = any_geometry(512, 0);
    f.upsampling = 1;
    f.lf_level = 0;
    rects(&f, false);
    std::mem::forget(f);
});
// kind: sampled(frames up to 2^30 pixels on each side)
sampled!(c12_any_rects_sampled, {
    let f = any_geometry(1 << 30, 3);
    rects(&f, false);
    rects(&f, true);
});

// kind: proof
harness!(c12_subsampling, unwind = 5, {
    let mut f = header();
    let j = [vrange(0, 3) as u32, vrange(0, 3) as u32, vrange(0, 3) as u32];
    f.jpeg_upsampling = j;
    f.maxhs = compute_jpeg_shift(&j, &H_SHIFT);
    f.maxvs = compute_jpeg_shift(&j, &V_SHIFT);
    // 0: 1x1, 1: 2x2, 2: 2x1, 3: 1x2
    let h = |c: usize| (j[c] == 1 || j[c] == 2) as usize;
    let v = |c: usize| (j[c] == 1 || j[c] == 3) as usize;
    let (mh, mv) = (h(0).max(h(1)).max(h(2)), v(0).max(v(1)).max(v(2)));
    let mut d = [(0, 0); 3];
    for c in 0..3 {
        d[c] = (mh - h(c), mv - v(c));
        assert!(f.raw_hshift(c) == h(c) && f.raw_vshift(c) == v(c), "sampling factor");
        assert!(f.hshift(c) == d[c].0 && f.vshift(c) == d[c].1, "subsampling relative to the finest channel");
    }
    let is = |x: (usize, usize)| d[1] == (0, 0) && d[0] == x && d[2] == x;
    assert!(f.is444() == is((0, 0)) && f.is420() == is((1, 1)) && f.is422() == is((1, 0)) && f.is440() == is((0, 1)), "named subsamplings");
    std::mem::forget(f);
});

// kind: bounded(frames of at most 8 groups in each direction)
harness!(c12_toc_entries, unwind = 10, {
    let mut f = any_geometry(1 << 10, 0);
    f.lf_level = 0;
    f.upsampling = 1;
    f.passes.num_passes = vrange(1, 11) as u32;
    let (g, l, p) = (f.num_groups(), f.num_lf_groups(), f.passes.num_passes as usize);
    assert!(f.num_toc_entries() == if g == 1 && p == 1 { 1 } else { 2 + l + g * p }, "sections");
    std::mem::forget(f);
});

#[cfg(not(kani))]
mod whole {
    use super::*;
    use crate::headers::bit_depth::BitDepth;
    use crate::headers::extra_channels::ExtraChannel;

    #[derive(PartialEq, Debug, Clone)]
    pub struct Rf {
        pub gab: Option<[f32; 6]>,
        pub epf: u64,
        pub lut: [f32; 8],
        pub scale: [f32; 3],
        pub sigma: [f32; 4],
        pub modular: f32,
    }
    fn rf_default() -> Rf {
        let g = [0.115169525f32, 0.061248592];
        let lut = [0, 1, 2, 3, 4, 5, 6, 7].map(|i| i as f32 / 7.0);
        Rf { gab: Some([g[0], g[1], g[0], g[1], g[0], g[1]]), epf: 2, lut, scale: [40.0, 5.0, 3.5], sigma: [0.46, 0.9, 6.5, 2.0 / 3.0], modular: 1.0 }
    }
    type Skip<'a, R> = &'a mut dyn FnMut(&mut R, u64) -> bool;
    fn ext<R: Rd>(s: &mut R, skip: Skip<R>) -> Option<()> {
        let sel = s.u64f();
        let mut total = 0u64;
        for i in 0..64 {
            if sel >> i & 1 == 1 {
                total = total.checked_add(s.u64f())?;
            }
        }
        skip(s, total).then_some(())
    }
    fn rf_spec<R: Rd>(s: &mut R, modular: bool, skip: Skip<R>) -> Option<Rf> {
        let mut r = rf_default();
        if s.flag() {
            return Some(r);
        }
        if !s.flag() {
            r.gab = None;
        } else if s.flag() {
            let mut w = [0.0; 6];
            for x in w.iter_mut() {
                *x = s.half()?;
            }
            r.gab = Some(w);
        }
        r.epf = s.get(2);
        if r.epf > 0 {
            if !modular && s.flag() {
                for x in r.lut.iter_mut() {
                    *x = s.half()?;
                }
            }
            if s.flag() {
                for x in r.scale.iter_mut() {
                    *x = s.half()?;
                }
                s.half()?;
                s.half()?;
            }
            if s.flag() {
                for i in modular as usize..4 {
                    r.sigma[i] = s.half()?;
                }
            }
            if modular {
                r.modular = s.half()?;
            }
        }
        ext(s, skip)?;
        Some(r)
    }
    fn rf_dump(r: &RestorationFilter) -> Rf {
        Rf {
            gab: r.gab.then_some([r.gab_x_weight1, r.gab_x_weight2, r.gab_y_weight1, r.gab_y_weight2, r.gab_b_weight1, r.gab_b_weight2]),
            epf: r.epf_iters as u64,
            lut: r.epf_sharp_lut,
            scale: r.epf_channel_scale,
            sigma: [r.epf_quant_mul, r.epf_pass0_sigma_scale, r.epf_pass2_sigma_scale, r.epf_border_sad_mul],
            modular: r.epf_sigma_for_modular,
        }
    }
    #[derive(PartialEq, Debug, Clone, Copy)]
    pub struct Blend {
        mode: u64,
        alpha: u64,
        clamp: bool,
        source: u64,
    }
    fn blend_spec<R: Rd>(s: &mut R, ec: usize, full: bool) -> Option<Blend> {
        let mode = s.sel([(0, 0), (0, 1), (0, 2), (2, 3)]);
        if mode > 4 {
            return None;
        }
        let uses = ec > 0 && (mode == 2 || mode == 3);
        let alpha = if uses { s.sel([(0, 0), (0, 1), (0, 2), (3, 3)]) } else { 0 };
        let clamp = (uses || mode == 4) && s.flag();
        let source = if full && mode == 0 { 0 } else { s.get(2) };
        Some(Blend { mode, alpha, clamp, source })
    }
    fn blend_dump(b: &BlendingInfo) -> Blend {
        Blend { mode: b.mode as u64, alpha: b.alpha_channel as u64, clamp: b.clamp, source: b.source as u64 }
    }
    #[derive(PartialEq, Debug, Clone)]
    pub struct Fr {
        ty: u64,
        modular: bool,
        flags: u64,
        ycbcr: bool,
        jpeg: [u64; 3],
        ups: u64,
        ecups: Vec<u64>,
        gshift: u64,
        xqm: u64,
        bqm: u64,
        passes: (u64, Vec<u64>, Vec<(u64, u64)>),
        level: u64,
        pos: (i64, i64),
        size: (u64, u64),
        blend: Blend,
        ecblend: Vec<Blend>,
        duration: u64,
        last: bool,
        save: u64,
        before: bool,
        reference: bool,
        name: Vec<u8>,
        rf: Rf,
        visible: bool,
        blending: bool,
    }
    fn spec<R: Rd>(s: &mut R, n: &FrameHeaderNonserialized, skip: Skip<R>) -> Option<Fr> {
        let ec = n.extra_channel_info.len();
        let b0 = Blend { mode: 0, alpha: 0, clamp: false, source: 0 };
        let mut f = Fr {
            ty: 0, modular: false, flags: 0, ycbcr: false, jpeg: [0; 3], ups: 1, ecups: vec![1; ec], gshift: 1, xqm: 3, bqm: 2,
            passes: (1, vec![], vec![]), level: 0, pos: (0, 0), size: (n.img_width as u64, n.img_height as u64), blend: b0,
            ecblend: vec![b0; ec], duration: 0, last: true, save: 0, before: false, reference: false, name: vec![], rf: rf_default(),
            visible: true, blending: false,
        };
        if !n.xyb_encoded {
            f.xqm = 2;
        }
        if s.flag() {
            return Some(f);
        }
        f.ty = s.get(2);
        let shown = f.ty == 0 || f.ty == 3;
        f.modular = s.get(1) == 1;
        f.flags = s.u64f();
        if !n.xyb_encoded {
            f.ycbcr = s.flag();
        }
        if f.flags & 0x20 == 0 {
            if f.ycbcr {
                for j in f.jpeg.iter_mut() {
                    *j = s.get(2);
                }
            }
            const U: [(usize, u64); 4] = [(0, 1), (0, 2), (0, 4), (0, 8)];
            f.ups = s.sel(U);
            for u in f.ecups.iter_mut() {
                *u = s.sel(U);
            }
        }
        let mut bad = false;
        if f.ups > 1 {
            for (u, i) in f.ecups.iter_mut().zip(&n.extra_channel_info) {
                let plain = *u;
                *u <<= i.dim_shift();
                bad |= *u < f.ups || *u > 8 || (f.flags & 2 != 0 && plain != f.ups);
            }
        }
        if f.modular {
            f.gshift = s.get(2);
        }
        if !f.modular && n.xyb_encoded {
            f.xqm = s.get(3);
            f.bqm = s.get(3);
        } else {
            f.xqm = 2;
        }
        if f.ty != 2 {
            let p = s.sel([(0, 1), (0, 2), (0, 3), (3, 4)]);
            f.passes.0 = p;
            if p > 1 {
                let d = s.sel([(0, 0), (0, 1), (0, 2), (1, 3)]);
                f.passes.1 = (1..p).map(|_| s.get(2)).collect();
                let ds: Vec<u64> = (0..d).map(|_| s.sel([(0, 1), (0, 2), (0, 4), (0, 8)])).collect();
                let lp: Vec<u64> = (0..d).map(|_| s.sel([(0, 0), (0, 1), (0, 2), (3, 0)])).collect();
                bad |= d >= p || ds.windows(2).any(|w| w[1] >= w[0]) || lp.windows(2).any(|w| w[1] <= w[0]) || lp.iter().any(|l| *l >= p);
                f.passes.2 = ds.into_iter().zip(lp).collect();
            }
        }
        let mut crop = false;
        if f.ty == 1 {
            f.level = s.get(2) + 1;
        } else {
            crop = s.flag();
        }
        bad |= f.flags & 0x20 != 0 && f.level >= 4;
        let mut full = true;
        if crop {
            const D: [(usize, u64); 4] = [(8, 0), (11, 256), (14, 2304), (30, 18688)];
            if f.ty != 2 {
                f.pos = (s.signed(D), s.signed(D));
            }
            let (w, h) = (s.sel(D), s.sel(D));
            full = f.pos.0 <= 0 && f.pos.1 <= 0 && w as i64 + f.pos.0 >= n.img_width as i64 && h as i64 + f.pos.1 >= n.img_height as i64;
            if w != 0 {
                f.size.0 = w;
            }
            if h != 0 {
                f.size.1 = h;
            }
        }
        if shown {
            f.blend = blend_spec(s, ec, full)?;
            for b in f.ecblend.iter_mut() {
                *b = blend_spec(s, ec, full)?;
            }
            for b in f.ecblend.iter().chain([&f.blend]) {
                bad |= ec > 0 && (b.mode == 2 || b.mode == 3) && b.alpha as usize >= ec;
            }
            if n.have_animation {
                f.duration = s.sel([(0, 0), (0, 1), (8, 0), (32, 0)]);
            }
            if n.have_timecode {
                s.get(32);
            }
            f.last = s.flag();
        } else {
            f.last = false;
        }
        if f.ty != 1 && !f.last {
            f.save = s.get(2);
        }
        f.reference = !f.last && f.ty != 1 && (f.duration == 0 || f.save != 0);
        f.before = f.ty == 1;
        if f.ty == 2 || (f.reference && f.blend.mode == 0 && full && shown) {
            f.before = s.flag();
        }
        bad |= f.ty == 2 && !f.before && !full;
        let nl = s.sel([(0, 0), (4, 0), (5, 16), (10, 48)]);
        for _ in 0..nl {
            if s.is_short() {
                return None;
            }
            f.name.push(s.get(8) as u8);
        }
        f.rf = rf_spec(s, f.modular, skip)?;
        ext(s, skip)?;
        f.visible = shown && (f.last || f.duration > 0);
        f.blending = shown && (crop || f.blend.mode != 0 || f.ecblend.iter().any(|b| b.mode != 0));
        if bad { None } else { Some(f) }
    }
    fn dump(g: &FrameHeader) -> Fr {
        let p = &g.passes;
        Fr {
            ty: g.frame_type as u64,
            modular: g.encoding == Encoding::Modular,
            flags: g.flags,
            ycbcr: g.do_ycbcr,
            jpeg: g.jpeg_upsampling.map(|x| x as u64),
            ups: g.upsampling as u64,
            ecups: g.ec_upsampling.iter().map(|x| *x as u64).collect(),
            gshift: g.group_size_shift as u64,
            xqm: g.x_qm_scale as u64,
            bqm: g.b_qm_scale as u64,
            passes: (p.num_passes as u64, p.shift.iter().map(|x| *x as u64).collect(),
                p.downsample.iter().zip(&p.last_pass).map(|(a, b)| (*a as u64, *b as u64)).collect()),
            level: g.lf_level as u64,
            pos: (g.x0 as i64, g.y0 as i64),
            size: (g.width as u64, g.height as u64),
            blend: blend_dump(&g.blending_info),
            ecblend: g.ec_blending_info.iter().map(blend_dump).collect(),
            duration: g.duration as u64,
            last: g.is_last,
            save: g.save_as_reference as u64,
            before: g.save_before_ct,
            reference: g.can_be_referenced,
            name: g.name.chars().map(|c| c as u32 as u8).collect(),
            rf: rf_dump(&g.restoration_filter),
            visible: g.is_visible(),
            blending: g.needs_blending(),
        }
    }
    pub fn any_ns() -> FrameHeaderNonserialized {
        let ec = vrange(0, 3);
        let d = BitDepth::integer_samples(8);
        FrameHeaderNonserialized {
            xyb_encoded: vany(),
            num_extra_channels: ec as u32,
            extra_channel_info: (0..ec)
                .map(|_| ExtraChannelInfo::new(false, ExtraChannel::Alpha, d, vrange(0, 3) as u32, String::new(), false, None, None))
                .collect(),
            have_animation: vany(),
            have_timecode: vany(),
            img_width: vrange(1, 400) as u32,
            img_height: vrange(1, 400) as u32,
        }
    }
    /// Answers fields, leaning towards small values so that headers are often valid.
    struct Gen(crate::verif::bits::BitW);
    impl Rd for Gen {
        fn get(&mut self, n: usize) -> u64 {
            if n == 0 {
                return 0;
            }
            let m = u64::MAX >> (64 - n);
            let v = match vrange(0, 5) {
                0 => 0,
                1 => 1 & m,
                2 => vany::<u64>() & m & 0x1ff,
                _ => vany::<u64>() & m,
            };
            self.0.put(v, n);
            v
        }
        fn is_short(&self) -> bool {
            false
        }
        fn u64f(&mut self) -> u64 {
            // flags and extension selectors: mostly few bits
            let v: u64 = [0, 1, 2, 0x10, 0x20, 0x80, 0x81, vany::<u64>() & 0xff][vrange(0, 7)];
            if v == 0 {
                self.0.put(0, 2);
            } else if v <= 16 {
                self.0.put(1, 2);
                self.0.put(v - 1, 4);
            } else {
                self.0.put(2, 2);
                self.0.put(v - 17, 8);
            }
            v
        }
    }
    pub fn run() {
        let n = any_ns();
        let mut g = Gen(Default::default());
        // The header starts at the next byte: `lead` bits have been read, the rest of that byte is padding.
        let lead = vrange(0, 7);
        if lead > 0 {
            let junk = if vrange(0, 15) == 0 { vany::<u8>() } else { vany::<u8>() & ((1 << lead) - 1) };
            g.0.put(junk as u64, 8);
        }
        let _ = spec(&mut g, &n, &mut |w, k| {
            for _ in 0..k.min(2000) {
                w.0.put(0, 1);
            }
            k <= 2000
        });
        let mut w = g.0;
        while w.n % 8 != 0 {
            w.put(0, 1);
        }
        w.noise(2);
        w.mutate();
        let mut s = crate::verif::bits::BitS::new(&w.data);
        s.read(if lead > 0 { 8 } else { 0 });
        let want = spec(&mut s, &n, &mut |s, k| {
            if s.short || k > s.left() as u64 {
                s.short = true;
                return false;
            }
            s.pos += k as usize;
            true
        });
        let mut br = BitReader::new(&w.data);
        if lead > 0 && w.data.is_empty() {
            return;
        }
        br.read(lead).unwrap();
        let pad = lead > 0 && w.data[0] >> lead != 0;
        let got = FrameHeader::read_unconditional(&(), &mut br, &n);
        if s.short || pad {
            assert!(got.is_err(), "cut short, or padding that is not zero");
            return;
        }
        match (want, got) {
            (Some(f), Ok(mut g)) => {
                g.postprocess(&n);
                let d = dump(&g);
                assert!(d == f, "frame header: {d:?} instead of {f:?}");
                assert!(br.total_bits_read() == s.pos, "consumes exactly its bits");
            }
            (Some(f), Err(e)) => panic!("valid frame header rejected: {e:?} {f:?}"),
            (None, Ok(g)) => panic!("invalid frame header accepted: {g:?}"),
            _ => {}
        }
    }
    pub fn brackets() {
        let p = vrange(1, 11) as u32;
        let d = vrange(0, (p - 1).min(4) as usize);
        let mut ds: Vec<u32> = (0..4).map(|i| 8 >> i).collect();
        while ds.len() > d {
            ds.remove(vrange(0, ds.len() - 1));
        }
        let mut lp: Vec<u32> = (0..p).collect();
        while lp.len() > d {
            lp.remove(vrange(0, lp.len() - 1));
        }
        let ps = Passes { num_passes: p, num_ds: d as u32, shift: vec![0; p as usize - 1], downsample: ds.clone(), last_pass: lp.clone() };
        // After pass i the image is complete down to the finest downsampling whose last pass is <= i.
        let done = |i: usize| if i + 1 == p as usize { 0 } else { lp.iter().zip(&ds).filter(|(l, _)| **l as usize <= i).map(|(_, d)| d.ilog2() as usize).min().unwrap_or(3) };
        for i in 0..p as usize {
            let (lo, hi) = ps.downsampling_bracket(i);
            assert!(lo == done(i), "finest scale of the pass");
            let before = if i == 0 { 3 } else { done(i - 1) };
            assert!(hi == before.saturating_sub(1), "coarsest scale of the pass");
        }
    }
}
// kind: sampled(frame headers generated by walking the format, then cut or damaged; up to 3 extra channels)
sampled!(c12_frame_header_sampled, { whole::run() });
// kind: sampled(1 to 11 passes with any valid downsampling steps)
sampled!(c12_pass_brackets_sampled, { whole::brackets() });
