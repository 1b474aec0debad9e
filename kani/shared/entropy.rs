// Native only: writes random entropy-code headers.
#[allow(unused_imports)]
use crate::verif::bits::*;
#[allow(unused_imports)]
use crate::verif::{vany, vrange};
pub fn log2(n: usize) -> usize {
    (0..).find(|b| 1usize << b >= n).unwrap()
}
/// A hybrid integer configuration for alphabets of 2^la symbols.
pub fn config(w: &mut BitW, la: usize, kind: usize) {
    let (se, msb, lsb) = match kind {
        0 => (4, 2, 0),
        1 => (0, 0, 0),
        2 => (la, 0, 0),
        _ => {
            let se = vrange(0, la.min(7));
            let m = vrange(0, se);
            (se, m, vrange(0, se - m))
        }
    };
    w.put(se as u64, log2(la + 1));
    if se < la {
        w.put(msb as u64, log2(se + 1));
        w.put(lsb as u64, log2(se - msb + 1));
    }
}
/// Entropy-code headers for n contexts. 0 plain, 1 LZ77, 2 run lengths only, 3 plain with 4-2-0 integers, 4 constants.
pub fn codes(w: &mut BitW, n: usize, kind: usize) {
    let lz = kind == 1 || kind == 2;
    w.put(lz as u64, 1);
    if lz {
        let min = [224, 16, 9][vrange(0, 2)];
        if min == 224 { w.put(0, 2) } else { w.put(3, 2); w.put(min - 8, 15); }
        w.put(vrange(0, 1) as u64, 2);
        config(w, 8, if vany() { 2 } else { 3 });
    }
    let nc = n + lz as usize;
    let mut clusters = 1;
    if nc > 1 {
        let mut b = log2(nc).min(vrange(0, 3));
        if kind == 2 {
            b = b.max(1);
        }
        w.put(1, 1);
        w.put(b as u64, 2);
        if kind == 2 {
            // The distance in a code of its own.
            clusters = n.min((1 << b) - 1) + 1;
            for i in 0..n {
                w.put((i % (clusters - 1)) as u64, b);
            }
            w.put(clusters as u64 - 1, b);
        } else {
            clusters = nc.min(1 << b);
            for i in 0..nc {
                w.put((i % clusters) as u64, b);
            }
        }
    }
    let prefix_codes = kind == 2 || vany();
    w.put(prefix_codes as u64, 1);
    let la = if prefix_codes { 15 } else { 5 + vrange(0, 3) };
    if !prefix_codes {
        w.put(la as u64 - 5, 2);
    }
    let one = vrange(0, 3);
    for i in 0..clusters {
        let dist = kind == 2 && i + 1 == clusters;
        config(w, la, if dist { 1 } else if kind == 3 { 0 } else if kind == 4 { one } else { vrange(0, 3) });
    }
    if prefix_codes {
        let als: Vec<usize> = (0..clusters).map(|i| if kind == 2 && i + 1 == clusters { 2 } else if kind == 4 { vrange(1, 2) } else if vrange(0, 3) == 0 { vrange(1, 300) } else { vrange(1, 24) }).collect();
        for al in &als {
            w.var(al - 1, 4);
        }
        for (i, al) in als.iter().enumerate() {
            if *al == 1 {
            } else if kind == 2 && i + 1 == clusters || kind == 4 {
                // One symbol, number 1.
                w.put(1, 2);
                w.put(0, 2);
                w.put(1, 1);
            } else {
                prefix::write(w, *al);
            }
        }
    } else {
        let s = vrange(0, 3);
        for _ in 0..clusters {
            match if kind == 4 { 0 } else { vrange(0, 3) } {
                0 => {
                    w.put(1, 2);
                    w.var8(if kind == 4 { s } else { vrange(0, (1 << la) - 1) });
                }
                1 => {
                    w.put(3, 2);
                    let a = vrange(0, (1 << la) - 1);
                    w.var8(a);
                    w.var8(if a == 0 { 1 } else { a - 1 });
                    w.put(vrange(1, 4095) as u64, 12);
                }
                _ => {
                    w.put(2, 2);
                    w.var8(vrange(0, (1 << la) - 1));
                }
            }
        }
    }
}
/// Codes for n contexts in which any value can be written by `value`.
#[allow(dead_code)]
pub fn flat(w: &mut BitW, n: usize) {
    w.put(0, 1);
    if n > 1 {
        w.put(1, 1);
        w.put(0, 2);
    }
    w.put(1, 1);
    config(w, 15, 1);
    // 64 symbols of 6 bits each.
    w.var(63, 4);
    w.put(0, 2);
    for i in [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15] {
        w.put(if i == 6 { 2 } else { 0 }, 2);
    }
}
#[allow(dead_code)]
pub fn value(w: &mut BitW, v: u32) {
    let n = if v == 0 { 0 } else { v.ilog2() as usize };
    w.code(if v == 0 { 0 } else { n + 1 }, 6);
    w.put(if v == 0 { 0 } else { v as u64 - (1 << n) }, n);
}
#[allow(dead_code)]
pub fn signed(w: &mut BitW, v: i32) {
    value(w, ((v << 1) ^ (v >> 31)) as u32);
}
