// C20: decoding a modular sub-bitstream: every specialised decoder equals walking the tree for every sample.
#[allow(unused_imports)]
use crate::entropy_coding::decode::Histograms;
#[allow(unused_imports)]
use crate::headers::bit_depth::BitDepth;
#[allow(unused_imports)]
use crate::headers::modular::WeightedHeader;
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};
#[allow(dead_code)]
mod modref {
    include!(concat!(env!("JXL_VERIF_DIR"), "/modref.rs"));
}

#[cfg(not(kani))]
#[allow(dead_code)]
mod entropy {
    include!(concat!(env!("JXL_VERIF_DIR"), "/entropy.rs"));
}

#[cfg(not(kani))]
mod stream {
    use super::*;
    use crate::verif::bits::*;

    use super::entropy::codes;
    /// A tree in reading order: breadth first, children side by side.
    fn tree(kind: usize) -> Vec<TreeNode> {
        #[derive(Clone)]
        struct T(Vec<(i64, i64)>);
        let mut out = vec![];
        let mut queue = std::collections::VecDeque::from([T(vec![(i32::MIN as i64, i32::MAX as i64); 256])]);
        let mut id = 0;
        let most = [1, 2, 5, 9, 20][vrange(0, 4)];
        let mut leaves = 1;
        let simple = vrange(0, 2) > 0;
        while let Some(t) = queue.pop_front() {
            let p = match kind {
                0 => match vrange(0, 5) {
                    0 => vrange(0, 3),
                    1 => 15,
                    2 => vrange(16, 29),
                    3 => [30, 100, 200, 255][vrange(0, 3)],
                    _ => vrange(2, 14),
                },
                1 => if vrange(0, 3) == 0 { vrange(0, 1) } else { 9 },
                2 => if vrange(0, 3) == 0 { vrange(0, 1) } else { 15 },
                3 => 0,
                _ => vrange(2, 14),
            };
            let (l, u) = t.0[p];
            if leaves < most && vrange(0, 4) > 0 && l < u {
                let span = if p < 2 { 5 } else { [3, 40, 1100, 70000][vrange(0, 3)] };
                let val = (vrange(0, 2 * span) as i64 - if p < 2 { 1 } else { span as i64 }).clamp(l, u - 1);
                leaves += 1;
                let left = (out.len() + queue.len() + 1) as u32;
                out.push(TreeNode::Split { property: p as u8, val: val as i32, left, right: left + 1 });
                let (mut a, mut b) = (t.clone(), t);
                a.0[p] = (val + 1, u);
                b.0[p] = (l, val);
                queue.push_back(a);
                queue.push_back(b);
            } else {
                let predictor = match kind {
                    1 | 3 => 5,
                    2 => 6,
                    _ => vrange(0, 13) as u32,
                };
                let plain = kind == 3 || (kind == 1 || kind == 2 || kind == 4) && simple;
                let offset = if plain || vrange(0, 1) == 0 { 0 } else { vrange(0, 200) as i32 - 100 };
                let multiplier = if plain || vrange(0, 1) == 0 { 1 } else { [2, 7, 255, 1 << 20][vrange(0, 3)] };
                out.push(TreeNode::Leaf { predictor: Predictor::try_from(predictor).unwrap(), offset, multiplier, id });
                id += 1;
            }
        }
        out
    }
    #[derive(Clone)]
    struct Px {
        w: usize,
        h: usize,
        shift: Option<(usize, usize)>,
        v: Vec<i32>,
    }
    impl Px {
        fn nb(&self, x: usize, y: usize) -> modref::Nb {
            modref::neighbours(|x, y| self.v[y * self.w + x] as i64, self.w, x, y)
        }
    }
    /// Properties 0 to 15 and those of earlier channels, from their definitions.
    fn property(p: usize, ch: &[Px], c: usize, stream: usize, x: usize, y: usize, wp: i64) -> i32 {
        let b = ch[c].nb(x, y);
        let local = |b: &modref::Nb| (b.w + b.n - b.nw) as i32;
        (match p {
            0 => c as i64,
            1 => stream as i64,
            2 => y as i64,
            3 => x as i64,
            4 => b.n.abs(),
            5 => b.w.abs(),
            6 => b.n,
            7 => b.w,
            8 => b.w - if x == 0 { 0 } else { local(&ch[c].nb(x - 1, y)) as i64 },
            9 => local(&b) as i64,
            10 => b.w - b.nw,
            11 => b.nw - b.n,
            12 => b.n - b.ne,
            13 => b.n - b.nn,
            14 => b.w - b.ww,
            15 => wp,
            _ => {
                let like: Vec<&Px> = (0..c).rev().map(|i| &ch[i]).filter(|k| (k.w, k.h, k.shift) == (ch[c].w, ch[c].h, ch[c].shift)).collect();
                let Some(k) = like.get((p - 16) / 4) else { return 0 };
                let v = k.v[y * k.w + x] as i64;
                let w = if x > 0 { k.v[y * k.w + x - 1] as i64 } else { 0 };
                let n = if y > 0 { k.v[(y - 1) * k.w + x] as i64 } else { w };
                let nw = if x > 0 && y > 0 { k.v[(y - 1) * k.w + x - 1] as i64 } else { w };
                let d = v - modref::gradient(w, n, nw);
                match p % 4 {
                    0 => v.abs(),
                    1 => v,
                    2 => d.abs(),
                    _ => d,
                }
            }
        }) as i32
    }
    pub fn run() {
        let kind = vrange(0, 4);
        let nodes = tree(kind);
        let n = nodes.len().div_ceil(2);
        let num_properties = nodes.iter().map(|n| if let TreeNode::Split { property, .. } = n { *property as usize + 1 } else { 1 }).max().unwrap();
        let mut w = BitW::default();
        let ck = match kind {
            1 | 2 => [3, 3, 3, 1, 0][vrange(0, 4)],
            3 => [2, 2, 2, 4, 0][vrange(0, 4)],
            _ => vrange(0, 4),
        };
        codes(&mut w, n, ck);
        let chans = vrange(1, 4);
        let first = (vrange(1, 20), vrange(1, 12));
        let mut ch = vec![];
        for i in 0..chans {
            let mut size = first;
            let mut shift = Some((0, 0));
            if i > 0 && vrange(0, 3) == 0 {
                size = (vrange(0, 9), vrange(0, 9));
                shift = [None, Some((1, 1)), Some((0, 0))][vrange(0, 2)];
            }
            ch.push(Px { w: size.0, h: size.1, shift, v: vec![0; size.0 * size.1] });
        }
        let total: usize = ch.iter().map(|c| c.v.len()).sum();
        let some = vrange(0, 7);
        w.noise(total * 3 * if some == 0 { 1 } else { 8 } / 8 + 12);
        if vrange(0, 15) == 0 {
            w.mutate();
        }
        let mut br = BitReader::new(&w.data);
        let Some(histograms) = vok(Histograms::decode(n, &mut br, true)) else { return };
        let p: [u32; 7] = std::array::from_fn(|_| vrange(0, 31) as u32);
        let k: [u32; 4] = std::array::from_fn(|_| vrange(0, 15) as u32);
        let wp_header = WeightedHeader { all_default: false, p1c: p[0], p2c: p[1], p3ca: p[2], p3cb: p[3], p3cc: p[4], p3cd: p[5], p3ce: p[6], w0: k[0], w1: k[1], w2: k[2], w3: k[3] };
        let wpr = modref::WpHeader { p1: p[0] as i64, p2: p[1] as i64, p3: std::array::from_fn(|i| p[2 + i] as i64), w: k.map(|x| x as u64) };
        let tree = Tree { nodes, histograms, num_properties };
        let stream = vrange(0, 6);
        // One sample after the other, by the definitions, on the plain symbol reader.
        let mut b2 = BitReader::new(&w.data);
        let h2 = Histograms::decode(n, &mut b2, true).unwrap();
        let width = ch.iter().map(|c| if c.v.is_empty() { 0 } else { c.w }).max().unwrap();
        let want = (|| -> Result<()> {
            let mut reader = SymbolReader::new(&h2, &mut b2, Some(width))?;
            for c in 0..chans {
                let (cw, chh) = (ch[c].w, ch[c].h);
                if cw == 0 {
                    continue;
                }
                let mut s = modref::Wp::new(&wpr, cw);
                for y in 0..chh {
                    for x in 0..cw {
                        let b = ch[c].nb(x, y);
                        let (wp, prop) = s.predict(x, y, &b);
                        let mut i = 0;
                        let v = loop {
                            match tree.nodes[i] {
                                TreeNode::Split { property: p, val, left, right } => {
                                    i = if property(p as usize, &ch, c, stream, x, y, prop) > val { left } else { right } as usize
                                }
                                TreeNode::Leaf { predictor, offset, multiplier, id } => {
                                    let r = reader.read_signed(&h2, &mut b2, id as usize);
                                    break modref::predict(predictor as u32, &b, wp) + offset as i64 + multiplier as i64 * r as i64;
                                }
                            }
                        } as i32;
                        ch[c].v[y * cw + x] = v;
                        s.update(x, y, v);
                    }
                }
            }
            reader.check_final_state(&h2, &mut b2)
        })();
        let mut out: Vec<ModularChannel> = ch
            .iter()
            .map(|c| {
                let mut m = ModularChannel::new_with_shift((c.w, c.h), c.shift, BitDepth::integer_samples(8)).unwrap();
                for y in 0..m.data.size().1 {
                    m.data.row_mut(y).fill(-9999);
                }
                m
            })
            .collect();
        let header = GroupHeader { use_global_tree: true, wp_header, transforms: vec![] };
        let global = Some(tree);
        let mut safe = 77;
        let r = vok(decode_modular_subbitstream(out.iter_mut().collect(), stream, Some(header), &global, &mut br, Some(&mut safe)));
        match want {
            Err(_) => {
                // Run lengths that overflow are not reported; everything else is.
                assert!(r.is_none() || ck == 2, "damaged streams are reported");
            }
            Ok(()) => {
                assert!(r.is_some(), "valid streams are accepted");
                for (m, c) in out.iter().zip(&ch) {
                    for i in 0..c.v.len() {
                        assert!(m.data.row(i / c.w)[i % c.w] == c.v[i], "decoded sample");
                    }
                }
                assert!(br.total_bits_read() == b2.total_bits_read() || total == 0, "bits");
            }
        }
    }
}
// kind: sampled(up to 4 channels of up to 20x12, trees of up to 20 leaves, every kind of entropy code)
sampled!(c20_streams_sampled, { stream::run() });
