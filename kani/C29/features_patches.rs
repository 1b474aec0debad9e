// C29: dictionaries of patches and the rows they are drawn to.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod entropy {
    include!(concat!(env!("JXL_VERIF_DIR"), "/entropy.rs"));
}
#[cfg(not(kani))]
#[allow(dead_code)]
mod blend_ref {
    include!(concat!(env!("JXL_VERIF_DIR"), "/blend_ref.rs"));
}
#[cfg(not(kani))]
fn any_frame(w: usize, h: usize, n: usize, before_ct: bool) -> ReferenceFrame {
    let frame = (0..n)
        .map(|_| {
            let mut im = crate::image::Image::<f32>::new((w, h)).unwrap();
            for y in 0..h {
                im.row_mut(y).copy_from_slice(&blend_ref::samples(w));
            }
            im
        })
        .collect();
    ReferenceFrame { frame, saved_before_color_transform: before_ct }
}

// kind: sampled(up to 3 reference patches of up to 6 copies and unlimited values, up to 4 extra channels, all entropy codes, damaged streams)
sampled!(c29_dictionary_sampled, {
    let n = vrange(0, 4);
    let (w, h) = (vrange(1, 60), vrange(1, 60));
    let (rw, rh) = (vrange(1, 40), vrange(1, 40));
    let kinds: Vec<usize> = (0..4).map(|i| if i == 0 { 2 } else { [0, 1, 2, 2][vrange(0, 3)] }).collect();
    let refs: Vec<Option<ReferenceFrame>> = kinds
        .iter()
        .map(|k| (*k > 0).then(|| ReferenceFrame { frame: vec![crate::image::Image::<f32>::new((rw, rh)).unwrap()], saved_before_color_transform: *k == 2 }))
        .collect();
    let mut s = crate::verif::bits::BitW::default();
    if vrange(0, 5) == 0 {
        entropy::codes(&mut s, 10, vrange(0, 4));
        s.noise(vrange(0, 200));
    } else {
        entropy::flat(&mut s, 10);
        let odd = |v: u32| match vrange(0, 399) {
            0 => vany(),
            1 => v.wrapping_add(256),
            2 => v + 1,
            3 => u32::MAX,
            _ => v,
        };
        let v = |s: &mut crate::verif::bits::BitW, v: u32| entropy::value(s, odd(v));
        let rp = if vrange(0, 60) == 0 { 1023 + (w * h / 4) as u32 + vrange(0, 4) as u32 } else { vrange(0, 3) as u32 };
        v(&mut s, rp);
        for _ in 0..rp.min(6) {
            let r = if vrange(0, 30) == 0 { vrange(1, 4) } else if kinds[1] == 2 { vrange(0, 1) } else { 0 };
            v(&mut s, r as u32);
            let (x0, y0) = (vrange(0, rw - 1), vrange(0, rh - 1));
            v(&mut s, x0 as u32);
            v(&mut s, y0 as u32);
            let (sx, sy) = (vrange(1, (rw - x0).min(w)), vrange(1, (rh - y0).min(h)));
            v(&mut s, sx as u32 - 1);
            v(&mut s, sy as u32 - 1);
            let count = vrange(1, 6);
            v(&mut s, count as u32 - 1);
            let mut at = (0i32, 0i32);
            for i in 0..count {
                let p = (vrange(0, w - sx) as i32, vrange(0, h - sy) as i32);
                for (a, b) in [(p.0, at.0), (p.1, at.1)] {
                    let d = a - b;
                    v(&mut s, if i == 0 { a as u32 } else { ((d << 1) ^ (d >> 31)) as u32 });
                }
                at = p;
                for _ in 0..n + 1 {
                    let mode = vrange(0, 7);
                    v(&mut s, mode as u32);
                    if mode >= 4 && n >= 2 {
                        v(&mut s, vrange(0, n - 1) as u32);
                    }
                    if mode >= 3 {
                        v(&mut s, vrange(0, 2) as u32);
                    }
                }
            }
        }
    }
    s.noise(if vrange(0, 12) == 0 { 0 } else { 20 });
    if vrange(0, 12) == 0 {
        s.mutate();
    }
    let mut br = BitReader::new(&s.data);
    let got = vok(PatchesDictionary::read(&mut br, w, h, n, &refs));
    let mut b2 = BitReader::new(&s.data);
    let want = (|| -> Option<(Vec<[i64; 5]>, Vec<(i64, i64, usize)>, Vec<(u32, usize, bool)>)> {
        let hist = vok(Histograms::decode(10, &mut b2, true))?;
        let mut r = vok(SymbolReader::new(&hist, &mut b2, None))?;
        let mut rps = vec![];
        let mut ps: Vec<(i64, i64, usize)> = vec![];
        let mut bs = vec![];
        macro_rules! u {
            ($c:expr) => {
                r.read_unsigned(&hist, &mut b2, $c) as i64
            };
        }
        let count = u!(0);
        let most = 1024 + (w * h / 4) as i64;
        if count > most {
            return None;
        }
        let mut total = 0;
        let mut reserve = 1;
        for i in 0..count {
            let f = u!(1);
            if f >= 4 {
                return None;
            }
            let (x0, y0) = (u!(3), u!(3));
            let (sx, sy) = (u!(2) + 1, u!(2) + 1);
            if kinds[f as usize] != 2 || x0 + sx > rw as i64 || y0 + sy > rh as i64 {
                return None;
            }
            let copies = u!(7) + 1;
            total += copies;
            if total > 4 * most {
                return None;
            }
            if reserve < total {
                reserve = (2 * reserve).min(4 * most);
            }
            // Limits are on what is set aside, which at most doubles with every patch.
            if reserve * (n as i64 + 1) > 16 * most {
                return None;
            }
            for j in 0..copies {
                let (x, y) = if j == 0 {
                    (u!(4), u!(4))
                } else {
                    let last = ps[ps.len() - 1];
                    let dx = r.read_signed(&hist, &mut b2, 6) as i64;
                    if last.0 + dx < 0 {
                        return None;
                    }
                    (last.0 + dx, last.1 + r.read_signed(&hist, &mut b2, 6) as i64)
                };
                if x < 0 || y < 0 || x + sx > w as i64 || y + sy > h as i64 {
                    return None;
                }
                for _ in 0..n + 1 {
                    let mode = u!(5);
                    if mode > 7 {
                        return None;
                    }
                    let alpha = if mode >= 4 && n > 1 { u!(8) } else { 0 };
                    if alpha > 0 && alpha >= n as i64 {
                        return None;
                    }
                    let clamp = mode >= 3 && u!(9) != 0;
                    bs.push((mode as u32, alpha as usize, clamp));
                }
                ps.push((x, y, i as usize));
            }
            rps.push([f, x0, y0, sx, sy]);
        }
        vok(r.check_final_state(&hist, &mut b2))?;
        Some((rps, ps, bs))
    })();
    assert!(got.is_some() == want.is_some(), "accepted {} for {:?}", got.is_some(), want);
    if let (Some(d), Some((rps, ps, bs))) = (got, want) {
        assert!(br.total_bits_read() == b2.total_bits_read(), "width");
        let g: Vec<[i64; 5]> = d.ref_positions.iter().map(|r| [r.reference, r.x0, r.y0, r.xsize, r.ysize].map(|v| v as i64)).collect();
        assert!(g == rps, "patches");
        let g: Vec<(i64, i64, usize)> = d.positions.iter().map(|p| (p.x as i64, p.y as i64, p.ref_pos_idx)).collect();
        assert!(g == ps, "positions");
        let g: Vec<(u32, usize, bool)> = d.blendings.iter().map(|b| (b.mode as u32, b.alpha_channel, b.clamp)).collect();
        assert!(g == bs && d.blendings_stride == n + 1, "blending");
        rows(&d, h);
    }
});

/// The patches of a row are those whose rows contain it, in order.
#[cfg(not(kani))]
fn rows(d: &PatchesDictionary, h: usize) {
    let mut r = vec![vrange(0, 3); vrange(0, 2)];
    for y in 0..h + 2 {
        d.set_patches_for_row(y, &mut r);
        let want: Vec<usize> = (0..d.positions.len())
            .filter(|i| {
                let p = &d.positions[*i];
                p.y <= y && y < p.y + d.ref_positions[p.ref_pos_idx].ysize
            })
            .collect();
        assert!(r == want, "patches of row {y}: {r:?}, not {want:?}");
    }
}

// kind: sampled(up to 40 patches of all shapes in up to 40 rows, chunks of up to 40 samples anywhere)
sampled!(c29_rows_sampled, {
    use blend_ref::*;
    let n = vrange(0, 2);
    let (info, alphas, pre) = infos(n);
    let (w, h) = (vrange(1, 50), vrange(1, 40));
    let refs: Vec<Option<ReferenceFrame>> = (0..2).map(|_| Some(any_frame(vrange(1, 30), vrange(1, 20), 3 + n, true))).collect();
    let nr = vrange(1, 8);
    let ref_positions: Vec<PatchReferencePosition> = (0..nr)
        .map(|_| {
            let reference = vrange(0, 1);
            let (fw, fh) = refs[reference].as_ref().unwrap().frame[0].size();
            let (x0, y0) = (vrange(0, fw - 1), vrange(0, fh - 1));
            PatchReferencePosition { reference, x0, y0, xsize: vrange(1, (fw - x0).min(w)), ysize: vrange(1, (fh - y0).min(h)) }
        })
        .collect();
    let np = if vrange(0, 3) == 0 { vrange(1, 40) } else { vrange(1, 8) };
    let positions: Vec<PatchPosition> = (0..np)
        .map(|_| {
            let r = vrange(0, nr - 1);
            let p = ref_positions[r];
            PatchPosition { x: vrange(0, w - p.xsize), y: vrange(0, h - p.ysize), ref_pos_idx: r }
        })
        .collect();
    let blendings: Vec<PatchBlending> = (0..np * (n + 1)).map(|_| any_blending(n, false)).collect();
    let mut d = PatchesDictionary { positions, ref_positions, blendings, blendings_stride: n + 1, patch_tree: vec![], num_patches: vec![], sorted_patches_y0: vec![], sorted_patches_y1: vec![] };
    d.compute_patch_tree().unwrap();
    rows(&d, h);
    for _ in 0..3 {
        let y = vrange(0, h - 1);
        let x0 = vrange(0, w - 1);
        let len = vrange(1, 40);
        // Positive alphas only: sums of several patches stay tame.
        let mut row: Vec<Vec<f32>> = (0..3 + n).map(|_| samples(len + 3)).collect();
        let mut want: Vec<Vec<f64>> = row.iter().map(|r| r.iter().map(|v| *v as f64).collect()).collect();
        for (i, p) in d.positions.iter().enumerate() {
            let r = d.ref_positions[p.ref_pos_idx];
            if y < p.y || y >= p.y + r.ysize {
                continue;
            }
            for x in p.x.max(x0)..(p.x + r.xsize).min(x0 + len) {
                let f = refs[r.reference].as_ref().unwrap();
                let layer: Vec<f32> = (0..3 + n).map(|c| f.frame[c].row(r.y0 + y - p.y)[r.x0 + x - p.x]).collect();
                let there: Vec<f32> = want.iter().map(|c| c[x - x0] as f32).collect();
                let b = &d.blendings[i * (n + 1)..];
                let rules: Vec<Rule> = b[1..n + 1].iter().map(rule).collect();
                for (c, v) in blend(&there, &layer, rule(&b[0]), &rules, &alphas, &pre).into_iter().enumerate() {
                    want[c][x - x0] = v;
                }
            }
        }
        {
            let mut rr: Vec<&mut [f32]> = row.iter_mut().map(|r| &mut r[..]).collect();
            let (mut a, mut b) = (vec![], vec![]);
            d.add_one_row(&mut rr, (x0, y), len, &info, &refs, &mut a, &mut b);
        }
        // A transparent sum of rounded alphas decides between a division and zero: only compare pixels that are clear of it.
        for x in 0..len + 3 {
            for c in 0..3 + n {
                let (g, e) = (row[c][x], want[c][x]);
                assert!((g as f64 - e).abs() <= 1e-3 * (1.0 + e.abs()) || unstable(&want, x, n), "sample {c} at {x}: {g}, not {e}");
            }
        }
    }
});
#[cfg(not(kani))]
fn unstable(want: &[Vec<f64>], x: usize, n: usize) -> bool {
    (0..3 + n).any(|c| want[c][x].abs() > 64.0 || (want[c][x] != 0.0 && want[c][x].abs() < 1e-3))
}
