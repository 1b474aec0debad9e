// Reference semantics of the modular sub-bitstream's arithmetic, written from the format's definition
// over plain grids; nothing here calls the decoder.
#[derive(Clone, Debug, PartialEq)]
pub struct Ch {
    pub w: usize,
    pub h: usize,
    pub shift: Option<(usize, usize)>,
    pub px: Vec<i32>,
}
impl Ch {
    pub fn new(w: usize, h: usize, shift: Option<(usize, usize)>) -> Ch {
        Ch { w, h, shift, px: vec![0; w * h] }
    }
    pub fn at(&self, x: usize, y: usize) -> i32 {
        self.px[y * self.w + x]
    }
}
/// The neighbours of a sample: W, N, NW, NE, NN, WW, NEE.
#[derive(Clone, Copy, Debug, Default)]
pub struct Nb {
    pub w: i64,
    pub n: i64,
    pub nw: i64,
    pub ne: i64,
    pub nn: i64,
    pub ww: i64,
    pub nee: i64,
}
pub fn neighbours(at: impl Fn(usize, usize) -> i64, width: usize, x: usize, y: usize) -> Nb {
    let w = match (x, y) {
        (0, 0) => 0,
        (0, _) => at(0, y - 1),
        _ => at(x - 1, y),
    };
    let n = if y == 0 { w } else { at(x, y - 1) };
    let nw = if x == 0 || y == 0 { w } else { at(x - 1, y - 1) };
    let ne = if y == 0 || x + 1 >= width { n } else { at(x + 1, y - 1) };
    let nn = if y < 2 { n } else { at(x, y - 2) };
    let ww = if x < 2 { w } else { at(x - 2, y) };
    let nee = if y == 0 || x + 2 >= width { ne } else { at(x + 2, y - 1) };
    Nb { w, n, nw, ne, nn, ww, nee }
}
pub fn gradient(w: i64, n: i64, nw: i64) -> i64 {
    (w + n - nw).clamp(w.min(n), w.max(n))
}
/// Predictor number p; `wp` is the weighted prediction.
pub fn predict(p: u32, b: &Nb, wp: i64) -> i64 {
    match p {
        0 => 0,
        1 => b.w,
        2 => b.n,
        3 => (b.w + b.n) / 2,
        4 => {
            let p = b.w + b.n - b.nw;
            if (p - b.w).abs() < (p - b.n).abs() { b.w } else { b.n }
        }
        5 => gradient(b.w, b.n, b.nw),
        6 => wp,
        7 => b.ne,
        8 => b.nw,
        9 => b.ww,
        10 => (b.w + b.nw) / 2,
        11 => (b.n + b.nw) / 2,
        12 => (b.n + b.ne) / 2,
        _ => (6 * b.n - 2 * b.nn + 7 * b.w + b.ww + b.nee + 3 * b.ne + 8) / 16,
    }
}
/// The self-correcting predictor: p1, p2, p3[5], w[4].
#[derive(Clone, Debug)]
pub struct WpHeader {
    pub p1: i64,
    pub p2: i64,
    pub p3: [i64; 5],
    pub w: [u64; 4],
}
pub struct Wp<'a> {
    pub h: &'a WpHeader,
    width: usize,
    /// Per sample so far: true error, and the four sub-predictors' errors.
    rows: Vec<Vec<(i64, [u32; 4])>>,
    sub: [i64; 4],
    pred: i64,
}
impl<'a> Wp<'a> {
    pub fn new(h: &'a WpHeader, width: usize) -> Self {
        Wp { h, width, rows: vec![], sub: [0; 4], pred: 0 }
    }
    /// Prediction and property 15 of the sample (x, y).
    pub fn predict(&mut self, x: usize, y: usize, b: &Nb) -> (i64, i64) {
        let e = |x: isize, y: isize| -> (i64, [u32; 4]) {
            if x < 0 || y < 0 || y as usize >= self.rows.len() {
                return (0, [0; 4]);
            }
            self.rows[y as usize].get(x as usize).copied().unwrap_or((0, [0; 4]))
        };
        let (xi, yi) = (x as isize, y as isize);
        let xne = if x + 1 < self.width { xi + 1 } else { xi };
        let xnw = if x > 0 { xi - 1 } else { xi };
        let te_w = e(xi - 1, yi).0;
        let (te_n, te_nw, te_ne) = (e(xi, yi - 1).0, e(xnw, yi - 1).0, e(xne, yi - 1).0);
        let mut prop = te_w;
        for t in [te_n, te_nw, te_ne] {
            if t.abs() > prop.abs() {
                prop = t;
            }
        }
        let (n8, w8, ne8, nw8, nn8) = (b.n * 8, b.w * 8, b.ne * 8, b.nw * 8, b.nn * 8);
        let h = self.h;
        self.sub = [
            w8 + ne8 - n8,
            n8 - (((te_w + te_n + te_ne) * h.p1) >> 5),
            w8 - (((te_w + te_n + te_nw) * h.p2) >> 5),
            n8 - ((te_nw * h.p3[0] + te_n * h.p3[1] + te_ne * h.p3[2] + (nn8 - n8) * h.p3[3] + (nw8 - w8) * h.p3[4]) >> 5),
        ];
        let mut weights = [0u64; 4];
        for i in 0..4 {
            // A slot accumulates the error above it and that of its western neighbour in this row.
            let slot = |k: isize| e(k, yi - 1).1[i].wrapping_add(e(k - 1, yi).1[i]);
            let s = slot(xi).wrapping_add(slot(xnw)).wrapping_add(slot(xne));
            let shift = (s as u64 + 1).ilog2().saturating_sub(5);
            weights[i] = 4 + ((h.w[i] * ((1 << 24) / ((s >> shift) as u64 + 1))) >> shift);
        }
        let total: u64 = weights.iter().sum();
        let lg = total.ilog2();
        let mut ws = 0i64;
        for w in weights.iter_mut() {
            *w >>= lg - 4;
            ws += *w as i64;
        }
        let mut s = (ws >> 1) - 1;
        for i in 0..4 {
            s += self.sub[i] * weights[i] as i64;
        }
        let mut pred = (s * ((1i64 << 24) / ws)) >> 24;
        if ((te_n ^ te_w) | (te_n ^ te_nw)) <= 0 {
            pred = pred.clamp(w8.min(n8).min(ne8), w8.max(n8).max(ne8));
        }
        self.pred = pred;
        ((pred + 3) >> 3, prop)
    }
    pub fn update(&mut self, x: usize, y: usize, v: i32) {
        if self.rows.len() <= y {
            self.rows.push(vec![]);
        }
        let t = v as i64 * 8;
        let mut sub = [0u32; 4];
        for i in 0..4 {
            sub[i] = (((self.sub[i] - t).abs() + 3) >> 3) as u32;
        }
        assert!(self.rows[y].len() == x);
        self.rows[y].push((((self.pred - t) as i32) as i64, sub));
    }
}

/// Inverse reversible colour transform of type t on one sample triple.
pub fn rct(t: u32, v: [i32; 3]) -> [i32; 3] {
    let [a, mut b, mut c] = v;
    let d;
    if t % 7 == 6 {
        let tmp = a.wrapping_sub(c >> 1);
        let e = c.wrapping_add(tmp);
        let f = tmp.wrapping_sub(b >> 1);
        d = [f.wrapping_add(b), e, f];
    } else {
        if t % 7 & 1 == 1 {
            c = c.wrapping_add(a);
        }
        if (t % 7) >> 1 == 1 {
            b = b.wrapping_add(a);
        } else if (t % 7) >> 1 == 2 {
            b = b.wrapping_add(a.wrapping_add(c) >> 1);
        }
        d = [a, b, c];
    }
    let p = (t / 7) as usize;
    let mut o = [0; 3];
    o[p % 3] = d[0];
    o[(p + 1 + p / 3) % 3] = d[1];
    o[(p + 2 - p / 3) % 3] = d[2];
    o
}

/// Squeeze: the difference implied by a smooth signal, B before, a here, n next.
pub fn tendency(b: i64, a: i64, n: i64) -> i64 {
    let mut x = 0;
    if b >= a && a >= n {
        x = (4 * b - 3 * n - a + 6) / 12;
        if x - (x & 1) > 2 * (b - a) {
            x = 2 * (b - a) + 1;
        }
        if x + (x & 1) > 2 * (a - n) {
            x = 2 * (a - n);
        }
    } else if b <= a && a <= n {
        x = (4 * b - 3 * n - a - 6) / 12;
        if x + (x & 1) < 2 * (b - a) {
            x = 2 * (b - a) - 1;
        }
        if x - (x & 1) < 2 * (a - n) {
            x = 2 * (a - n);
        }
    }
    x
}
/// One line: averages and residuals to samples. `next` replaces the average after the last one, `prev` the sample before.
pub fn unsqueeze(avg: &[i32], res: &[i32], next: Option<i32>, prev: Option<i32>) -> Vec<i32> {
    let mut o: Vec<i32> = vec![];
    for i in 0..res.len() {
        let a = avg[i] as i64;
        let n = if i + 1 < avg.len() { avg[i + 1] as i64 } else { next.map_or(a, |v| v as i64) };
        let p = match o.last() {
            Some(v) => *v as i64,
            None => prev.map_or(a, |v| v as i64),
        };
        let d = res[i] as i64 + tendency(p, a, n);
        let first = a + d / 2;
        o.push(first as i32);
        o.push((first - d) as i32);
    }
    if avg.len() > res.len() {
        o.push(avg[res.len()]);
    }
    o
}
pub fn unsqueeze_channel(horizontal: bool, avg: &Ch, res: &Ch) -> Ch {
    let mut o = if horizontal { Ch::new(avg.w + res.w, avg.h, avg.shift) } else { Ch::new(avg.w, avg.h + res.h, avg.shift) };
    if horizontal {
        for y in 0..o.h {
            let l = unsqueeze(&avg.px[y * avg.w..(y + 1) * avg.w], &res.px[y * res.w..(y + 1) * res.w], None, None);
            o.px[y * o.w..(y + 1) * o.w].copy_from_slice(&l);
        }
        o.shift = avg.shift.map(|s| (s.0 - 1, s.1));
    } else {
        for x in 0..o.w {
            let a: Vec<i32> = (0..avg.h).map(|y| avg.at(x, y)).collect();
            let r: Vec<i32> = (0..res.h).map(|y| res.at(x, y)).collect();
            for (y, v) in unsqueeze(&a, &r, None, None).into_iter().enumerate() {
                let i = y * o.w + x;
                o.px[i] = v;
            }
        }
        o.shift = avg.shift.map(|s| (s.0, s.1 - 1));
    }
    o
}

pub const DELTAS: [[i32; 3]; 72] = [
    [0, 0, 0], [4, 4, 4], [11, 0, 0], [0, 0, -13], [0, -12, 0], [-10, -10, -10], [-18, -18, -18], [-27, -27, -27],
    [-18, -18, 0], [0, 0, -32], [-32, 0, 0], [-37, -37, -37], [0, -32, -32], [24, 24, 45], [50, 50, 50], [-45, -24, -24],
    [-24, -45, -45], [0, -24, -24], [-34, -34, 0], [-24, 0, -24], [-45, -45, -24], [64, 64, 64], [-32, 0, -32], [0, -32, 0],
    [-32, 0, 32], [-24, -45, -24], [45, 24, 45], [24, -24, -45], [-45, -24, 24], [80, 80, 80], [64, 0, 0], [0, 0, -64],
    [0, -64, -64], [-24, -24, 45], [96, 96, 96], [64, 64, 0], [45, -24, -24], [34, -34, 0], [112, 112, 112], [24, -45, -45],
    [45, 45, -24], [0, -32, 32], [24, -24, 45], [0, 96, 96], [45, -24, 24], [24, -45, -24], [-24, -45, 24], [0, -64, 0],
    [96, 0, 0], [128, 128, 128], [64, 0, 64], [144, 144, 144], [96, 96, 0], [-36, -36, 36], [45, -24, -45], [45, -45, -24],
    [0, 0, -96], [0, 128, 128], [0, 96, 0], [45, 24, -45], [-128, 0, 0], [24, -45, 24], [-45, 24, -45], [64, 0, -64],
    [64, -64, -64], [96, 0, 96], [45, -45, 24], [24, 45, -45], [64, 64, -64], [128, 128, 0], [0, 0, -128], [-24, 45, -45],
];
/// The colour an index stands for; `entry` is the explicit palette of `size` colours.
pub fn palette(entry: impl Fn(usize) -> i32, size: i64, index: i64, c: usize, depth: u32) -> i32 {
    let depth = depth.min(24);
    let full = (1i64 << depth) - 1;
    if index < 0 {
        if c >= 3 {
            return 0;
        }
        let k = ((-(index + 1)) % 143) as usize;
        let v = DELTAS[(k + 1) / 2][c];
        let v = if k % 2 == 0 { -v } else { v };
        if depth > 8 { v << (depth - 8) } else { v }
    } else if index < size {
        entry(index as usize)
    } else if c >= 3 {
        0
    } else if index < size + 64 {
        let d = ((index - size) >> (2 * c)) % 4;
        (d * full / 4 + (1i64 << depth.saturating_sub(3))) as i32
    } else {
        let k = index - size - 64;
        let d = (k / [1, 5, 25][c]) % 5;
        (d * full / 4) as i32
    }
}
/// Undoes a palette: `idx` and `pal` to one channel per palette row.
pub fn unpalette(idx: &Ch, pal: &Ch, deltas: usize, predictor: u32, wp: &WpHeader, depth: u32) -> Vec<Ch> {
    (0..pal.h)
        .map(|c| {
            let mut o = Ch::new(idx.w, idx.h, idx.shift);
            let mut s = Wp::new(wp, idx.w);
            for y in 0..idx.h {
                for x in 0..idx.w {
                    let i = idx.at(x, y) as i64;
                    let b = neighbours(|x, y| o.at(x, y) as i64, o.w, x, y);
                    let wpp = if predictor == 6 { s.predict(x, y, &b).0 } else { 0 };
                    let mut v = palette(|k| pal.at(k, c), pal.w as i64, i, c, depth) as i64;
                    if i < deltas as i64 {
                        v += predict(predictor, &b, wpp);
                    }
                    o.px[y * o.w + x] = v as i32;
                    if predictor == 6 {
                        s.update(x, y, v as i32);
                    }
                }
            }
            o
        })
        .collect()
}

/// Transforms as coded.
#[derive(Clone, Debug)]
pub enum Tr {
    Rct { begin: usize, ty: u32 },
    Palette { begin: usize, num: usize, colors: usize, deltas: usize, predictor: u32 },
    Squeeze { horizontal: bool, in_place: bool, begin: usize, num: usize },
}
/// The channel list after a transform, or None when it does not apply.
pub fn forward(t: &Tr, l: &[Ch]) -> Option<Vec<Ch>> {
    let same = |b: usize, n: usize| b + n <= l.len() && n > 0 && (b..b + n).all(|i| (l[i].w, l[i].h, l[i].shift) == (l[b].w, l[b].h, l[b].shift));
    let mut l2 = l.to_vec();
    match *t {
        Tr::Rct { begin, .. } => same(begin, 3).then_some(l2),
        Tr::Palette { begin, num, colors, deltas, .. } => {
            if !same(begin, num) {
                return None;
            }
            l2.drain(begin + 1..begin + num);
            l2.insert(0, Ch::new(colors + deltas, num, None));
            Some(l2)
        }
        Tr::Squeeze { horizontal, in_place, begin, num } => {
            let end = begin + num;
            if end > l.len() || l[begin].shift.is_none() != l[end - 1].shift.is_none() || (l[begin].shift.is_none() && !in_place) {
                return None;
            }
            let mut at = if in_place { end } else { l2.len() };
            for i in begin..end {
                let c = &l[i];
                let shift = match c.shift {
                    Some((a, b)) if a > 30 || b > 30 => return None,
                    Some((a, b)) if horizontal => Some((a + 1, b)),
                    Some((a, b)) => Some((a, b + 1)),
                    None => None,
                };
                let (a, r) = if horizontal {
                    (Ch::new(c.w.div_ceil(2), c.h, shift), Ch::new(c.w / 2, c.h, shift))
                } else {
                    (Ch::new(c.w, c.h.div_ceil(2), shift), Ch::new(c.w, c.h / 2, shift))
                };
                l2[i] = a;
                l2.insert(at, r);
                at += 1;
            }
            Some(l2)
        }
    }
}
/// Undoes transform t on the decoded list.
pub fn inverse(t: &Tr, mut l: Vec<Ch>, wp: &WpHeader, depth: u32) -> Vec<Ch> {
    match *t {
        Tr::Rct { begin, ty } => {
            for i in 0..l[begin].px.len() {
                let o = rct(ty, [l[begin].px[i], l[begin + 1].px[i], l[begin + 2].px[i]]);
                for c in 0..3 {
                    l[begin + c].px[i] = o[c];
                }
            }
            l
        }
        Tr::Palette { begin, deltas, predictor, .. } => {
            let pal = l.remove(0);
            let idx = l.remove(begin);
            for (c, ch) in unpalette(&idx, &pal, deltas, predictor, wp, depth).into_iter().enumerate() {
                l.insert(begin + c, ch);
            }
            l
        }
        Tr::Squeeze { horizontal, in_place, begin, num } => {
            let at = if in_place { begin + num } else { l.len() - num };
            let res: Vec<Ch> = l.drain(at..at + num).collect();
            for (i, r) in res.iter().enumerate() {
                let mut c = unsqueeze_channel(horizontal, &l[begin + i], r);
                if l[begin + i].shift.is_none() {
                    c.shift = None;
                }
                l[begin + i] = c;
            }
            l
        }
    }
}
/// The squeezes applied when a squeeze transform lists none.
pub fn default_squeezes(l: &[Ch]) -> Vec<Tr> {
    let m = l.iter().take_while(|c| c.shift.is_none()).count();
    let (mut w, mut h) = (l[m].w, l[m].h);
    let n = l.len() - m;
    let mut o = vec![];
    if n > 2 && (l[m + 1].w, l[m + 1].h) == (w, h) {
        if w > 1 {
            o.push(Tr::Squeeze { horizontal: true, in_place: false, begin: m + 1, num: 2 });
        }
        if h > 1 {
            o.push(Tr::Squeeze { horizontal: false, in_place: false, begin: m + 1, num: 2 });
        }
    }
    let s = |horizontal| Tr::Squeeze { horizontal, in_place: true, begin: m, num: n };
    if h >= w && h > 8 {
        o.push(s(false));
        h = h.div_ceil(2);
    }
    while w > 8 || h > 8 {
        if w > 8 {
            o.push(s(true));
            w = w.div_ceil(2);
        }
        if h > 8 {
            o.push(s(false));
            h = h.div_ceil(2);
        }
    }
    o
}
