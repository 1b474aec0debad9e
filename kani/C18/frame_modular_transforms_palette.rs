// C18: palettes: the colour of every index, and undoing a palette channel by channel, group by group and by rows of groups.
#[allow(unused_imports)]
use crate::frame::modular::buffers::{ModularBuffer, NeededBorders};
#[allow(unused_imports)]
use crate::headers::bit_depth::BitDepth;
#[allow(unused_imports)]
use crate::util::sync::RwLock;
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[allow(dead_code)]
mod modref {
    include!(concat!(env!("JXL_VERIF_DIR"), "/modref.rs"));
}
use modref::Ch;

fn any_size() -> usize {
    let n: u32 = vany();
    vassume(n < 1 << 20);
    n as usize
}

// kind: proof
// Negative indices name the fixed difference table.
harness!(c18_delta_entries, unwind = 4, {
    let pal = Image::<i32>::new((0, 0)).unwrap();
    let index: i32 = vany();
    vassume(index < 0);
    let (c, depth) = (vrange(0, 4), vrange(1, 24));
    let size = any_size();
    let got = get_palette_value(&pal, index as isize, c, size, depth);
    let want = modref::palette(|_| 0, size as i64, index as i64, c, depth as u32);
    assert!(got == want, "difference entry");
    vcover!(got < -1000, "a scaled entry");
});

// kind: proof
// Indices past the palette name the small colour cube, then the large one.
harness!(c18_cube_entries, unwind = 4, {
    let pal = Image::<i32>::new((0, 0)).unwrap();
    let index: i32 = vany();
    let size = any_size();
    vassume(index as i64 >= size as i64);
    let (c, depth) = (vrange(0, 4), vrange(1, 24));
    let got = get_palette_value(&pal, index as isize, c, size, depth);
    let want = modref::palette(|_| 0, size as i64, index as i64, c, depth as u32);
    assert!(got == want, "cube entry");
    assert!(got >= 0 && (got as i64) < (1i64 << depth) || depth < 4, "a colour of this bit depth");
    vcover!(index as usize >= size + 64 + 125, "past both cubes");
});

#[cfg(not(kani))]
mod undo {
    use super::*;
    struct P {
        idx: Ch,
        pal: Ch,
        colors: usize,
        deltas: usize,
        predictor: u32,
        wp: WeightedHeader,
        wpr: modref::WpHeader,
        depth: u32,
        want: Vec<Ch>,
    }
    fn sample(maxw: usize, minw: usize, predictors: &[u32]) -> P {
        let depth = [1, 2, 4, 8, 9, 12, 16, 24, 31][vrange(0, 8)];
        let (w, h) = (vrange(minw, maxw), vrange(1, 12));
        let c = vrange(1, 5);
        let colors = [0, 1, 2, 5, 70][vrange(0, 4)];
        let deltas = [0, 0, 1, 3, 40][vrange(0, 4)];
        let mut pal = Ch::new(colors + deltas, c, None);
        for v in pal.px.iter_mut() {
            *v = vrange(0, 4000) as i32 - 2000;
        }
        let mut idx = Ch::new(w, h, Some((0, 0)));
        let all = (colors + deltas + 8) as i64;
        for v in idx.px.iter_mut() {
            *v = match vrange(0, 7) {
                0 => -(vrange(1, 300) as i64),
                1 => all + vrange(0, 300) as i64,
                2 => vrange(0, deltas) as i64,
                _ => vrange(0, all as usize) as i64,
            } as i32;
        }
        let p: [u32; 7] = std::array::from_fn(|_| vrange(0, 31) as u32);
        let k: [u32; 4] = std::array::from_fn(|_| vrange(0, 15) as u32);
        let predictor = predictors[vrange(0, predictors.len() - 1)];
        let wpr = modref::WpHeader { p1: p[0] as i64, p2: p[1] as i64, p3: std::array::from_fn(|i| p[2 + i] as i64), w: k.map(|x| x as u64) };
        let want = modref::unpalette(&idx, &pal, deltas, predictor, &wpr, depth);
        P {
            want,
            idx,
            pal,
            colors,
            deltas,
            predictor,
            wp: WeightedHeader { all_default: false, p1c: p[0], p2c: p[1], p3ca: p[2], p3cb: p[3], p3cc: p[4], p3cd: p[5], p3ce: p[6], w0: k[0], w1: k[1], w2: k[2], w3: k[3] },
            wpr,
            depth,
        }
    }
    fn channel(c: &Ch, (x0, y0, w, h): (usize, usize, usize, usize), depth: u32) -> ModularChannel {
        let mut o = ModularChannel::new_with_shift((w, h), Some((0, 0)), BitDepth::integer_samples(depth)).unwrap();
        if w > 0 {
            for y in 0..h {
                for x in 0..w {
                    o.data.row_mut(y)[x] = c.at(x0 + x, y0 + y);
                }
            }
        }
        o
    }
    fn blank(w: usize, h: usize, depth: u32) -> ModularChannel {
        let mut o = ModularChannel::new_with_shift((w, h), Some((0, 0)), BitDepth::integer_samples(depth)).unwrap();
        for y in 0..h {
            o.data.row_mut(y).fill(-77);
        }
        o
    }
    fn same(o: &ModularChannel, c: &Ch, x0: usize, y0: usize) {
        let (w, h) = o.data.size();
        for y in 0..h {
            for x in 0..w {
                assert!(o.data.row(y)[x] == c.at(x0 + x, y0 + y), "colour at a position");
            }
        }
    }
    pub fn general() {
        let p = sample(24, 1, &[0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 10, 11, 12, 13]);
        let (w, h) = (p.idx.w, p.idx.h);
        let idx = channel(&p.idx, (0, 0, w, h), p.depth);
        let pal = channel(&p.pal, (0, 0, p.pal.w, p.pal.h), p.depth);
        let mut out: Vec<ModularChannel> = (0..p.pal.h).map(|_| blank(w, h, p.depth)).collect();
        let mut r: Vec<&mut ModularChannel> = out.iter_mut().collect();
        do_palette_step_general(&idx, &pal, &mut r, p.colors, p.deltas, Predictor::try_from(p.predictor).unwrap(), &p.wp);
        for (o, c) in out.iter().zip(&p.want) {
            same(o, c, 0, 0);
        }
        let _ = &p.wpr;
    }
    fn cuts(n: usize, g: usize) -> Vec<(usize, usize)> {
        (0..n.div_ceil(g)).map(|i| (i * g, (n - i * g).min(g))).collect()
    }
    fn buffer(m: ModularChannel) -> ModularBuffer {
        let mut b = ModularBuffer::new(m.data.size());
        b.needed_borders = NeededBorders { topbottom: true, leftright: true };
        b.data = RwLock::new(Some(m));
        b.extract_needed_borders().unwrap();
        b
    }
    pub fn groups() {
        let p = sample(30, 1, &[0, 1, 2, 3, 4, 5, 8, 9, 10, 11]);
        let predictor = Predictor::try_from(p.predictor).unwrap();
        assert!(!predictor.requires_full_row(), "predictors that need only the adjacent groups");
        let (gw, gh) = (vrange(2, 9), vrange(2, 9));
        let (xs, ys) = (cuts(p.idx.w, gw), cuts(p.idx.h, gh));
        let pal = channel(&p.pal, (0, 0, p.pal.w, p.pal.h), p.depth);
        let mut done: Vec<Vec<ModularBuffer>> = vec![];
        let mut scratch = [vec![5; vrange(0, 20)], vec![]];
        for (gy, &(y0, h)) in ys.iter().enumerate() {
            for (gx, &(x0, w)) in xs.iter().enumerate() {
                let idx = channel(&p.idx, (x0, y0, w, h), p.depth);
                let mut out: Vec<ModularChannel> = (0..p.pal.h).map(|_| blank(w, h, p.depth)).collect();
                {
                    let mut r: Vec<&mut ModularChannel> = out.iter_mut().collect();
                    let need = p.predictor != 0;
                    let border = |on: bool, dx: usize, dy: usize, lr: bool| -> Option<Vec<Image<i32>>> {
                        on.then(|| {
                            done[(gy - dy) * xs.len() + gx - dx]
                                .iter()
                                .map(|b| {
                                    let g = if lr { b.leftright.try_read() } else { b.topbottom.try_read() }.unwrap();
                                    g.as_ref().unwrap().try_clone().unwrap()
                                })
                                .collect()
                        })
                    };
                    let (l, t) = (need && gx > 0, need && gy > 0);
                    let (bl, bt, btl) = (border(l, 1, 0, true), border(t, 0, 1, false), border(l && t, 1, 1, false));
                    let vl = bl.as_ref().map(|v| v.iter().collect::<Vec<_>>());
                    let vt = bt.as_ref().map(|v| v.iter().collect::<Vec<_>>());
                    let vtl = btl.as_ref().map(|v| v.iter().collect::<Vec<_>>());
                    do_palette_step_one_group(&idx, &pal, &mut r, vl.as_deref(), vt.as_deref(), vtl.as_deref(), p.colors, p.deltas, predictor, &mut scratch);
                }
                for (o, c) in out.iter().zip(&p.want) {
                    same(o, c, x0, y0);
                }
                done.push(out.into_iter().map(buffer).collect());
            }
        }
    }
    pub fn rows() {
        let p = sample(30, 1, &[6, 6, 7, 12, 13]);
        let predictor = Predictor::try_from(p.predictor).unwrap();
        assert!(predictor.requires_full_row(), "predictors that need whole rows");
        let (gw, gh) = (vrange(2, 12), 2 * vrange(1, 3));
        let (xs, ys) = (cuts(p.idx.w, gw), cuts(p.idx.h, gh));
        let pal = channel(&p.pal, (0, 0, p.pal.w, p.pal.h), p.depth);
        let nc = p.pal.h;
        let mut scratch = [vec![5; vrange(0, 40)], vec![9; vrange(0, 40)]];
        let mut prev: Option<(Vec<ModularBuffer>, Vec<Option<Image<i32>>>)> = None;
        for &(y0, h) in &ys {
            let idx: Vec<ModularChannel> = xs.iter().map(|&(x0, w)| channel(&p.idx, (x0, y0, w, h), p.depth)).collect();
            let ir: Vec<&ModularChannel> = idx.iter().collect();
            let mut out: Vec<ModularChannel> = vec![];
            for _ in 0..nc {
                for &(_, w) in &xs {
                    out.push(blank(w, h, p.depth));
                }
            }
            let aux: Vec<RwLock<Option<Image<i32>>>> = (0..nc).map(|_| RwLock::new(None)).collect();
            let weighted = p.predictor == 6;
            {
                let mut r: Vec<&mut ModularChannel> = out.iter_mut().collect();
                let mut ag: Vec<_> = if weighted { aux.iter().map(|a| a.try_write().unwrap()).collect() } else { vec![] };
                let tb: Option<Vec<Image<i32>>> = prev.as_ref().map(|(b, _)| b.iter().map(|b| b.topbottom.try_read().unwrap().as_ref().unwrap().try_clone().unwrap()).collect());
                let tbr = tb.as_ref().map(|v| v.iter().collect::<Vec<_>>());
                let pa = prev.as_ref().map(|(_, a)| a.iter().map(|a| a.as_ref()).collect::<Vec<_>>());
                do_palette_step_group_row(
                    &ir,
                    &pal,
                    &mut r,
                    tbr.as_deref(),
                    if weighted { pa.as_deref() } else { None },
                    &mut ag,
                    xs.len(),
                    p.colors,
                    p.deltas,
                    predictor,
                    &p.wp,
                    &mut scratch,
                )
                .unwrap();
            }
            for c in 0..nc {
                for (i, &(x0, _)) in xs.iter().enumerate() {
                    same(&out[c * xs.len() + i], &p.want[c], x0, y0);
                }
            }
            let aux = aux.into_iter().map(|a| a.try_write().unwrap().take()).collect();
            prev = Some((out.into_iter().map(buffer).collect(), aux));
        }
    }
    pub fn zero() {
        let mut p = sample(20, 1, &[0]);
        p.idx.px.fill(0);
        let want = modref::unpalette(&p.idx, &p.pal, p.deltas, 0, &p.wpr, p.depth);
        let pal = channel(&p.pal, (0, 0, p.pal.w, p.pal.h), p.depth);
        let mut out: Vec<ModularChannel> = (0..p.pal.h).map(|_| blank(p.idx.w, p.idx.h, p.depth)).collect();
        let mut r: Vec<&mut ModularChannel> = out.iter_mut().collect();
        zero_palette_step_one_group(&pal, &mut r, p.colors, p.deltas);
        for (o, c) in out.iter().zip(&want) {
            same(o, c, 0, 0);
        }
    }
}
// kind: sampled(index channels up to 24x12, up to 5 palette rows of up to 110 colours)
sampled!(c18_general_sampled, { undo::general() });
// kind: sampled(index channels up to 30x12 in groups of 2 to 9)
sampled!(c18_groups_sampled, { undo::groups() });
// kind: sampled(index channels up to 30x12 in groups of 2 to 12)
sampled!(c18_group_rows_sampled, { undo::rows() });
// kind: sampled(all-zero index channels)
sampled!(c18_zero_sampled, { undo::zero() });
