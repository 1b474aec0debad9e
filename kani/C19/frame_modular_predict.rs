// C19: predictors: the neighbours of a position, the fourteen predictors and the self-correcting one.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[allow(dead_code)]
mod modref {
    include!(concat!(env!("JXL_VERIF_DIR"), "/modref.rs"));
}
use modref::Nb;

fn nb(d: &PredictionData) -> Nb {
    Nb { w: d.left as i64, n: d.top as i64, nw: d.topleft as i64, ne: d.topright as i64, nn: d.toptop as i64, nee: d.toprightright as i64, ww: d.leftleft as i64 }
}
fn any_data() -> PredictionData {
    PredictionData { left: vany(), top: vany(), toptop: vany(), topleft: vany(), topright: vany(), leftleft: vany(), toprightright: vany() }
}

// kind: proof
harness!(c19_predictors, {
    let d = any_data();
    let p = vrange(0, 13) as u32;
    let wp: i32 = vany();
    let got = Predictor::try_from(p).unwrap().predict_one(d, wp as i64);
    assert!(got == modref::predict(p, &nb(&d), wp as i64), "prediction");
});
// kind: proof
harness!(c19_predictor_ids, {
    let p: u32 = vany();
    match Predictor::try_from(p) {
        Ok(q) => assert!(p < 14 && q as u32 == p, "predictor"),
        Err(e) => {
            assert!(p >= 14, "undefined predictors are rejected");
            std::mem::forget(e);
        }
    }
});
// kind: proof
// For samples, which are 32 bits wide, the clamped gradient lies between its neighbours.
harness!(c19_gradient, {
    let (w, n, nw): (i32, i32, i32) = (vany(), vany(), vany());
    let g = clamped_gradient(w as i64, n as i64, nw as i64);
    assert!(g == modref::gradient(w as i64, n as i64, nw as i64), "clamped gradient");
    assert!(g >= w.min(n) as i64 && g <= w.max(n) as i64, "between west and north");
});

// kind: bounded(rows of at most 5 samples)
harness!(c19_neighbours, unwind = 8, {
    let (row, top, toptop): ([i32; 5], [i32; 5], [i32; 5]) = (vany(), vany(), vany());
    let w = vrange(1, 5);
    let (x, y) = (vrange(0, 4), vrange(0, 3));
    vassume(x < w);
    let d = PredictionData::get_rows(&row[..w], &top[..w], &toptop[..w], x, y);
    let at = |px: usize, py: usize| (if py == y { row[px] } else if py + 1 == y { top[px] } else { toptop[px] }) as i64;
    let want = modref::neighbours(at, w, x, y);
    let got = nb(&d);
    assert!(got.w == want.w && got.n == want.n && got.nw == want.nw && got.ne == want.ne, "adjacent samples");
    assert!(got.nn == want.nn && got.nee == want.nee && got.ww == want.ww, "samples two away");
    vcover!(x > 1 && x + 2 < w && y > 1, "interior");
});
// kind: bounded(rows of at most 6 samples)
// Stepping to the next interior sample gives what fetching its neighbours afresh gives.
harness!(c19_neighbours_step, unwind = 8, {
    let (mut row, top, toptop): ([i32; 6], [i32; 6], [i32; 6]) = (vany(), vany(), vany());
    let w = vrange(5, 6);
    let x = vrange(2, 3);
    vassume(x + 2 < w);
    let y = vrange(2, 3);
    let need: bool = vany();
    let prev = PredictionData::get_rows(&row[..w], &top[..w], &toptop[..w], x - 1, y);
    let cur: i32 = vany();
    row[x - 1] = cur;
    let a = prev.update_for_interior_row(&top[..w], &toptop[..w], x, cur, need);
    let b = PredictionData::get_rows(&row[..w], &top[..w], &toptop[..w], x, y);
    assert!(a.left == b.left && a.top == b.top && a.topleft == b.topleft && a.topright == b.topright, "adjacent samples");
    assert!(a.leftleft == b.leftleft && a.toprightright == b.toprightright && (!need || a.toptop == b.toptop), "samples two away");
});

#[cfg(not(kani))]
mod weighted {
    use super::*;
    fn val(k: usize) -> i32 {
        match k {
            0 => vrange(0, 15) as i32 - 8,
            1 => vrange(0, 511) as i32 - 256,
            2 => vrange(0, 1 << 17) as i32 - (1 << 16),
            _ => vany(),
        }
    }
    pub fn run() {
        let p: [u32; 7] = std::array::from_fn(|_| vrange(0, 31) as u32);
        let k: [u32; 4] = std::array::from_fn(|_| vrange(0, 15) as u32);
        let h = WeightedHeader { all_default: false, p1c: p[0], p2c: p[1], p3ca: p[2], p3cb: p[3], p3cc: p[4], p3cd: p[5], p3ce: p[6], w0: k[0], w1: k[1], w2: k[2], w3: k[3] };
        let r = modref::WpHeader { p1: p[0] as i64, p2: p[1] as i64, p3: std::array::from_fn(|i| p[2 + i] as i64), w: k.map(|x| x as u64) };
        let (w, rows) = (vrange(1, 12), vrange(1, 7));
        let size = vrange(0, 3);
        let mut px = vec![0i32; w * rows];
        let mut s = WeightedPredictorState::new(&h, w);
        let mut m = modref::Wp::new(&r, w);
        for y in 0..rows {
            if y > 0 && y % 2 == 0 && vrange(0, 2) == 0 {
                // Carrying the state over to the next row of groups.
                let mut img = Image::<i32>::new((w + 1, 5)).unwrap();
                s.save_state(&mut img);
                s = WeightedPredictorState::new(&h, w);
                s.restore_state(&img);
            }
            for x in 0..w {
                let b = modref::neighbours(|x, y| px[y * w + x] as i64, w, x, y);
                let row = |y: usize| &px[y * w..(y + 1) * w];
                let d = PredictionData::get_rows(row(y), row(y.saturating_sub(1)), row(y.saturating_sub(2)), x, y);
                let got = s.predict_and_property((x, y), &d);
                let want = m.predict(x, y, &b);
                assert!(got.0 == want.0, "self-correcting prediction");
                assert!(got.1 as i64 == want.1, "largest neighbouring error");
                let v = if vrange(0, 3) == 0 { got.0.clamp(i32::MIN as i64, i32::MAX as i64) as i32 } else { val(size) };
                px[y * w + x] = v;
                s.update_errors(v, (x, y));
                m.update(x, y, v);
            }
        }
    }
}
// kind: sampled(channels up to 12x7, every parameter, samples up to the full 32 bits)
sampled!(c19_weighted_sampled, { weighted::run() });
