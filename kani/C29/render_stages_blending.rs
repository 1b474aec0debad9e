// C29: blending of frames at their place.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod blend_ref {
    include!(concat!(env!("JXL_VERIF_DIR"), "/blend_ref.rs"));
}
#[cfg(not(kani))]
fn any_info(n: usize) -> BlendingInfo {
    BlendingInfo {
        mode: [BlendingMode::Replace, BlendingMode::Add, BlendingMode::Blend, BlendingMode::AlphaWeightedAdd, BlendingMode::Mul][vrange(0, 4)],
        alpha_channel: if n == 0 { 0 } else { vrange(0, n - 1) as u32 },
        clamp: vany(),
        source: vrange(0, 3) as u32,
    }
}
// kind: sampled(frames anywhere around images of up to 40x6, up to 3 extra channels, up to 4 reference frames)
sampled!(c29_frames_sampled, {
    use crate::render::stages::ExtendToImageDimensionsStage;
    use blend_ref::*;
    let n = vrange(0, 3);
    let (info, alphas, pre) = infos(n);
    let (w, h) = (vrange(1, 40), vrange(1, 6));
    let mut refs: [Option<ReferenceFrame>; 4] = [None, None, None, None];
    for r in refs.iter_mut() {
        if vrange(0, 2) > 0 {
            let (rw, rh) = (w + vrange(0, 3), h + vrange(0, 2));
            let frame = (0..3 + n)
                .map(|_| {
                    let mut im = crate::image::Image::<f32>::new((rw, rh)).unwrap();
                    for y in 0..rh {
                        im.row_mut(y).copy_from_slice(&samples(rw));
                    }
                    im
                })
                .collect();
            *r = Some(ReferenceFrame { frame, saved_before_color_transform: false });
        }
    }
    let refs = Arc::new(refs);
    let color = any_info(n);
    let ecs: Vec<BlendingInfo> = (0..n).map(|_| any_info(n)).collect();
    let origin = (vrange(0, 60) as isize - 25, vrange(0, 12) as isize - 5);
    let stage = BlendingStage {
        frame_origin: origin,
        image_size: (w as isize, h as isize),
        blending_info: color.clone(),
        ec_blending_info: ecs.clone(),
        ec_patch_blending_info: ecs.iter().map(PatchBlending::from).collect(),
        extra_channels: info.clone(),
        reference_frames: refs.clone(),
        zeros: vec![0.0; w],
    };
    let rule = |b: &BlendingInfo| {
        let (op, below) = match b.mode {
            BlendingMode::Replace => (Op::Keep, true),
            BlendingMode::Add => (Op::Add, true),
            BlendingMode::Mul => (Op::Mul, true),
            BlendingMode::Blend => (Op::Blend, true),
            BlendingMode::AlphaWeightedAdd => (Op::Weighted, true),
        };
        Rule { op, below, alpha: b.alpha_channel as usize, clamp: b.clamp }
    };
    let rules: Vec<Rule> = ecs.iter().map(rule).collect();
    let background = |c: usize, x: usize, y: usize| {
        let s = if c < 3 { color.source } else { ecs[c - 3].source };
        refs[s as usize].as_ref().map_or(0.0, |r| r.frame[c].row(y)[x])
    };
    let mut state = stage.init_local_state().unwrap();
    for _ in 0..3 {
        let (x0, y0) = (vrange(0, 30), vrange(0, 8));
        let n_px = vrange(1, 45);
        let mut rows: Vec<Vec<f32>> = (0..3 + n + vrange(0, 1)).map(|_| samples(n_px + 3)).collect();
        let old = rows.clone();
        {
            let mut r: Vec<&mut [f32]> = rows.iter_mut().map(|r| &mut r[..]).collect();
            stage.process_row_chunk((x0, y0), n_px, &mut r, state.as_deref_mut());
        }
        for x in 0..n_px + 3 {
            let (ix, iy) = (origin.0 + (x0 + x) as isize, origin.1 + y0 as isize);
            let inside = x < n_px && ix >= 0 && ix < w as isize && iy >= 0 && iy < h as isize;
            let there: Vec<f32> = old[..3 + n].iter().map(|r| r[x]).collect();
            let want = if inside {
                let layer: Vec<f32> = (0..3 + n).map(|c| background(c, ix as usize, iy as usize)).collect();
                blend(&there, &layer, rule(&color), &rules, &alphas, &pre)
            } else {
                there.iter().map(|v| *v as f64).collect()
            };
            for c in 0..3 + n {
                assert!(close(rows[c][x], want[c]), "sample {c} at {x} ({ix}, {iy}) is {}, not {} (was {}, {color:?} {ecs:?})", rows[c][x], want[c], there[c]);
            }
            for c in 3 + n..rows.len() {
                assert!(rows[c][x] == old[c][x], "other channels are kept");
            }
        }
    }
    // Outside the frame, the background shows.
    let extend = ExtendToImageDimensionsStage {
        frame_origin: origin,
        image_size: (w, h),
        blending_info: color.clone(),
        ec_blending_info: ecs.clone(),
        extra_channels: info,
        reference_frames: refs.clone(),
        zeros: vec![0.0; w],
    };
    let x0 = vrange(0, w - 1);
    let n_px = vrange(1, w - x0);
    let y = vrange(0, h - 1);
    for c in 0..4 + n {
        let mut row = samples(n_px + 2);
        let old = row.clone();
        extend.process_row_chunk((x0, y), n_px, c, &mut row);
        for x in 0..n_px + 2 {
            let want = if x < n_px && c < 3 + n { background(c, x0 + x, y) } else { old[x] };
            assert!(row[x] == want, "background of channel {c}");
        }
    }
});
