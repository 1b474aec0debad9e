// Native only: what blending defines, sample by sample.
#[allow(unused_imports)]
use crate::features::patches::{PatchBlendMode as M, PatchBlending};
use crate::headers::bit_depth::BitDepth;
use crate::headers::extra_channels::{ExtraChannel, ExtraChannelInfo};
#[allow(unused_imports)]
use crate::verif::{vany, vrange};

/// How a new sample meets an old one.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Keep,
    Replace,
    Add,
    Mul,
    Blend,
    Weighted,
}
#[derive(Clone, Copy, Debug)]
pub struct Rule {
    pub op: Op,
    /// The new layer is what is there already.
    pub below: bool,
    pub alpha: usize,
    pub clamp: bool,
}
pub fn rule(b: &PatchBlending) -> Rule {
    let (op, below) = match b.mode as u8 {
        0 => (Op::Keep, false),
        1 => (Op::Replace, false),
        2 => (Op::Add, false),
        3 => (Op::Mul, false),
        4 => (Op::Blend, false),
        5 => (Op::Blend, true),
        6 => (Op::Weighted, false),
        7 => (Op::Weighted, true),
        _ => (Op::Mul, true),
    };
    Rule { op, below, alpha: b.alpha_channel, clamp: b.clamp }
}
/// Blends one pixel: three colours and the extra channels.
pub fn blend(there: &[f32], layer: &[f32], color: Rule, ec: &[Rule], alphas: &[bool], premultiplied: &[bool]) -> Vec<f64> {
    let old: Vec<f64> = there.iter().map(|v| *v as f64).collect();
    let add: Vec<f64> = layer.iter().map(|v| *v as f64).collect();
    let mut out = old.clone();
    let clamped = |v: f64, c: bool| if c { v.max(0.0).min(1.0) } else { v };
    let sample = |i: usize, r: Rule, is_alpha: bool, has_alpha: bool| {
        let (top, bottom) = if r.below { (&old, &add) } else { (&add, &old) };
        let (t, b) = (top[i], bottom[i]);
        match r.op {
            Op::Keep => old[i],
            Op::Replace => add[i],
            Op::Add => t + b,
            Op::Mul => b * clamped(t, r.clamp),
            Op::Blend | Op::Weighted if !has_alpha => if r.op == Op::Blend { t } else { t + b },
            Op::Blend => {
                let (ta, ba) = (clamped(top[3 + r.alpha], r.clamp), bottom[3 + r.alpha]);
                let a = 1.0 - (1.0 - ta) * (1.0 - ba);
                if is_alpha {
                    a
                } else if premultiplied[r.alpha] {
                    t + b * (1.0 - ta)
                } else if a > 0.0 {
                    (t * ta + b * ba * (1.0 - ta)) / a
                } else {
                    0.0
                }
            }
            Op::Weighted => {
                if is_alpha { b } else { b + t * clamped(top[3 + r.alpha], r.clamp) }
            }
        }
    };
    for (i, r) in ec.iter().enumerate() {
        out[3 + i] = sample(3 + i, *r, r.alpha == i, true);
    }
    let has_alpha = alphas.iter().any(|a| *a);
    for c in 0..3 {
        out[c] = sample(c, color, false, has_alpha);
    }
    if color.op == Op::Blend && has_alpha {
        // Blending colours defines the alpha channel too.
        out[3 + color.alpha] = sample(3 + color.alpha, color, true, true);
    }
    out
}
pub fn infos(n: usize) -> (Vec<ExtraChannelInfo>, Vec<bool>, Vec<bool>) {
    let mut v = vec![];
    let (mut alphas, mut pre) = (vec![], vec![]);
    for _ in 0..n {
        let a = vrange(0, 3) > 0;
        let p: bool = vany();
        alphas.push(a);
        pre.push(p);
        v.push(ExtraChannelInfo::new(false, if a { ExtraChannel::Alpha } else { ExtraChannel::Depth }, BitDepth::integer_samples(8), 0, String::new(), p, None, None));
    }
    (v, alphas, pre)
}
/// Samples whose products are exact, with fully transparent, opaque and out-of-range ones.
pub fn samples(n: usize) -> Vec<f32> {
    let kind = vrange(0, 3);
    (0..n)
        .map(|_| match kind {
            0 => (vrange(0, 16) as f32) / 16.0,
            1 => (vrange(0, 40) as f32 - 12.0) / 16.0,
            2 => [0.0, 1.0, 0.5, -1.0, 2.0][vrange(0, 4)],
            _ => vrange(0, 1) as f32,
        })
        .collect()
}
pub fn any_blending(num_ec: usize, below: bool) -> PatchBlending {
    let modes = [M::None, M::Replace, M::Add, M::Mul, M::BlendAbove, M::BlendBelow, M::AlphaWeightedAddAbove, M::AlphaWeightedAddBelow, M::MulBelow];
    PatchBlending { mode: modes[vrange(0, if below { 8 } else { 7 })], alpha_channel: if num_ec == 0 { 0 } else { vrange(0, num_ec - 1) }, clamp: vany() }
}
pub fn close(a: f32, b: f64) -> bool {
    (a as f64 - b).abs() <= 1e-5 * (1.0 + b.abs())
}
