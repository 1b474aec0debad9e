// C29: blending one layer with another.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod blend_ref {
    include!(concat!(env!("JXL_VERIF_DIR"), "/blend_ref.rs"));
}

#[allow(dead_code)]
fn one_pixel(color: PatchBlendMode, extra: PatchBlendMode) -> ([f32; 4], [f32; 4], [f32; 4]) {
    use crate::headers::bit_depth::BitDepth;
    let info = [ExtraChannelInfo::new(false, ExtraChannel::Alpha, BitDepth::integer_samples(8), 0, String::new(), vany(), None, None)];
    let old: [f32; 4] = [vany(), vany(), vany(), vany()];
    let new: [f32; 4] = [vany(), vany(), vany(), vany()];
    let clamp: bool = vany();
    let (mut a, mut b, mut c, mut d) = ([old[0]], [old[1]], [old[2]], [old[3]]);
    {
        let mut bg: [&mut [f32]; 4] = [&mut a, &mut b, &mut c, &mut d];
        let (na, nb, nc, nd) = ([new[0]], [new[1]], [new[2]], [new[3]]);
        let fg: [&[f32]; 4] = [&na, &nb, &nc, &nd];
        let cb = PatchBlending { mode: color, alpha_channel: 0, clamp };
        let eb = [PatchBlending { mode: extra, alpha_channel: 0, clamp }];
        let mut tmp = Vec::from([0f32; 1]);
        perform_blending(&mut bg, &fg, &cb, &eb, &info, &mut tmp);
        std::mem::forget(tmp);
    }
    std::mem::forget(info);
    (old, new, [a[0], b[0], c[0], d[0]])
}

// kind: proof(all samples of a pixel with one extra channel; modes that keep or replace, and the weighted addition of alpha itself)
harness!(c29_kept_replaced, unwind = 6, {
    let modes = [PatchBlendMode::None, PatchBlendMode::Replace, PatchBlendMode::AlphaWeightedAddAbove, PatchBlendMode::AlphaWeightedAddBelow];
    let color = vrange(0, 1);
    let extra = vrange(0, 3);
    let (old, new, out) = one_pixel(modes[color], modes[extra]);
    let i = vrange(0, 3);
    vcover!((i == 3) & (extra == 3), "weighted below");
    vcover!((i == 0) & (color == 1), "replaced");
    let replaced = if i < 3 { color == 1 } else { extra == 1 || extra == 3 };
    let want = if replaced { new[i] } else { old[i] };
    assert!(out[i].to_bits() == want.to_bits(), "kept or replaced");
});

// kind: proof(all samples of a pixel with one extra channel, all channels added)
harness!(c29_added, unwind = 6, {
    let (old, new, out) = one_pixel(PatchBlendMode::Add, PatchBlendMode::Add);
    let i = vrange(0, 3);
    vcover!(i == 3, "extra");
    let want = old[i] + new[i];
    assert!(out[i] == want || (out[i].is_nan() && want.is_nan()), "added");
});

#[allow(dead_code)]
fn some_sample() -> f32 {
    let v: f32 = vany();
    vassume(v.abs() <= 1e6);
    v
}
/// Blends a pixel whose upper layer is opaque or transparent; old, new and resulting samples.
#[allow(dead_code)]
fn opaque_or_not(color: PatchBlendMode, extra: PatchBlendMode, below: bool, pre: bool, alpha: [f32; 2]) -> ([f32; 5], [f32; 5], [f32; 5]) {
    use crate::headers::bit_depth::BitDepth;
    let info = [
        ExtraChannelInfo::new(false, ExtraChannel::Depth, BitDepth::integer_samples(8), 0, String::new(), false, None, None),
        ExtraChannelInfo::new(false, ExtraChannel::Alpha, BitDepth::integer_samples(8), 0, String::new(), pre, None, None),
    ];
    let old: [f32; 5] = [some_sample(), some_sample(), some_sample(), some_sample(), alpha[0]];
    let new: [f32; 5] = [some_sample(), some_sample(), some_sample(), some_sample(), alpha[1]];
    let (old, new) = if below { (new, old) } else { (old, new) };
    let clamp: bool = vany();
    let (mut a, mut b, mut c, mut d, mut e) = ([old[0]], [old[1]], [old[2]], [old[3]], [old[4]]);
    {
        let mut bg: [&mut [f32]; 5] = [&mut a, &mut b, &mut c, &mut d, &mut e];
        let (na, nb, nc, nd, ne) = ([new[0]], [new[1]], [new[2]], [new[3]], [new[4]]);
        let fg: [&[f32]; 5] = [&na, &nb, &nc, &nd, &ne];
        let cb = PatchBlending { mode: color, alpha_channel: 1, clamp };
        let eb = [PatchBlending { mode: extra, alpha_channel: 1, clamp }, PatchBlending { mode: extra, alpha_channel: 1, clamp }];
        let mut tmp = Vec::from([0f32; 2]);
        perform_blending(&mut bg, &fg, &cb, &eb, &info, &mut tmp);
        std::mem::forget(tmp);
    }
    std::mem::forget(info);
    (old, new, [a[0], b[0], c[0], d[0], e[0]])
}

// The alphas are those of the lower and the upper layer.
// kind: proof(all finite samples of a pixel, upper layer new and opaque)
harness!(c29_opaque_above, unwind = 6, {
    let (_, new, out) = opaque_or_not(PatchBlendMode::BlendAbove, PatchBlendMode::BlendAbove, false, vany(), [0.5, 1.0]);
    let i = vrange(0, 4);
    assert!(out[i] == new[i], "an opaque layer hides what is below");
});
// kind: proof(all finite samples of a pixel, upper layer there already and opaque)
harness!(c29_opaque_below, unwind = 6, {
    let (old, _, out) = opaque_or_not(PatchBlendMode::BlendBelow, PatchBlendMode::BlendBelow, true, vany(), [0.5, 1.0]);
    let i = vrange(0, 4);
    assert!(out[i] == old[i], "an opaque layer hides what is below");
});
// kind: proof(all finite samples of a pixel, upper layer new, transparent and not premultiplied)
harness!(c29_transparent_above, unwind = 6, {
    let (old, _, out) = opaque_or_not(PatchBlendMode::BlendAbove, PatchBlendMode::BlendAbove, false, false, [1.0, 0.0]);
    let i = vrange(0, 4);
    assert!(out[i] == old[i], "a transparent layer hides nothing");
});
// kind: proof(all finite samples of a pixel, both layers transparent and not premultiplied)
harness!(c29_both_transparent, unwind = 6, {
    let (_, _, out) = opaque_or_not(PatchBlendMode::BlendAbove, PatchBlendMode::BlendAbove, false, false, [0.0, 0.0]);
    let i = vrange(0, 4);
    assert!(out[i] == 0.0, "nothing is there");
});
// kind: proof(all finite samples of a pixel, weighted addition of one channel with weight 1)
harness!(c29_weight_one, unwind = 6, {
    let (old, new, out) = opaque_or_not(PatchBlendMode::AlphaWeightedAddAbove, PatchBlendMode::None, false, vany(), [0.5, 1.0]);
    assert!(out[2] == old[2] + new[2], "added with full weight");
    assert!(out[3] == old[3] && out[4] == old[4], "kept");
});
// kind: proof(all finite samples of a pixel, weighted addition with weight 0)
harness!(c29_weight_zero, unwind = 6, {
    let (old, new, out) = opaque_or_not(PatchBlendMode::AlphaWeightedAddBelow, PatchBlendMode::AlphaWeightedAddBelow, true, vany(), [0.5, 0.0]);
    let i = vrange(0, 4);
    assert!(out[i] == new[i], "added with no weight");
});
// kind: proof(all finite samples of a pixel, multiplied by zero or one)
harness!(c29_times_one, unwind = 6, {
    let (old, new, out) = opaque_or_not(PatchBlendMode::Replace, PatchBlendMode::Mul, false, vany(), [0.5, 1.0]);
    assert!(out[4] == old[4], "times one");
    assert!(out[0] == new[0], "replaced");
});

// kind: sampled(up to 4 extra channels, all modes, rows of up to 70 samples)
sampled!(c29_blend_sampled, {
    use blend_ref::*;
    let n = vrange(0, 4);
    let (info, alphas, pre) = infos(n);
    let w = if vrange(0, 3) == 0 { vrange(0, 70) } else { vrange(1, 20) };
    let mut bg: Vec<Vec<f32>> = (0..3 + n).map(|_| samples(w)).collect();
    let fg: Vec<Vec<f32>> = (0..3 + n).map(|_| samples(w)).collect();
    let color = any_blending(n, true);
    let same = vrange(0, 3) == 0;
    let mut ec: Vec<PatchBlending> = (0..n).map(|_| if same { PatchBlending { mode: color.mode, ..any_blending(n, true) } } else { any_blending(n, true) }).collect();
    if vrange(0, 3) == 0 {
        for b in ec.iter_mut() {
            b.mode = [PatchBlendMode::None, PatchBlendMode::Replace][vrange(0, 1)];
        }
    }
    let old = bg.clone();
    let rules: Vec<Rule> = ec.iter().map(rule).collect();
    // Patches pass the blendings of all patches after them too.
    for _ in 0..vrange(0, 2) {
        let b = any_blending(n, true);
        ec.push(b);
    }
    let mut tmp = vec![7.0; vrange(0, 90)];
    {
        let mut b: Vec<&mut [f32]> = bg.iter_mut().map(|r| &mut r[..]).collect();
        let f: Vec<&[f32]> = fg.iter().map(|r| &r[..]).collect();
        perform_blending(&mut b, &f, &color, &ec, &info, &mut tmp);
    }
    for x in 0..w {
        let there: Vec<f32> = old.iter().map(|r| r[x]).collect();
        let layer: Vec<f32> = fg.iter().map(|r| r[x]).collect();
        let want = blend(&there, &layer, rule(&color), &rules, &alphas, &pre);
        for c in 0..3 + n {
            assert!(close(bg[c][x], want[c]), "sample {c} of {there:?} and {layer:?} is {}, not {} ({color:?} {rules:?} {pre:?})", bg[c][x], want[c]);
        }
    }
});
