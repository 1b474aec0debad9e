// C20: decision trees: their properties, walking them, reading and validating them.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};

// kind: proof
harness!(c20_properties, unwind = 20, {
    let d = PredictionData { left: vany(), top: vany(), toptop: vany(), topleft: vany(), topright: vany(), leftleft: vany(), toprightright: vany() };
    let (x, y) = (vrange(0, 1 << 30), vrange(0, 1 << 30));
    let before: [i32; 16] = vany();
    let mut b = before;
    let refs = Image::<i32>::new((0, 0)).unwrap();
    let wp = compute_properties(d, None, x, y, &refs, &mut b);
    let (w, n, nw, ne, nn, ww) = (d.left as i64, d.top as i64, d.topleft as i64, d.topright as i64, d.toptop as i64, d.leftleft as i64);
    assert!(wp == 0 && b[15] == 0 && b[0] == before[0] && b[1] == before[1], "static properties stay");
    assert!(b[2] == y as i32 && b[3] == x as i32, "position");
    assert!(b[4] == n.abs() as i32 && b[5] == w.abs() as i32 && b[6] == d.top && b[7] == d.left, "neighbours");
    assert!(b[8] == (w - before[9] as i64) as i32 && b[9] == (w + n - nw) as i32, "local gradient");
    assert!(b[10] == (w - nw) as i32 && b[11] == (nw - n) as i32 && b[12] == (n - ne) as i32, "differences");
    assert!(b[13] == (n - nn) as i32 && b[14] == (w - ww) as i32, "second differences");
});

fn same(a: &TreeNode, b: &TreeNode) -> bool {
    match (*a, *b) {
        (TreeNode::Split { property: p, val: v, left: l, right: r }, TreeNode::Split { property, val, left, right }) => p == property && v == val && l == left && r == right,
        (TreeNode::Leaf { predictor: p, offset: o, multiplier: m, id: i }, TreeNode::Leaf { predictor, offset, multiplier, id }) => {
            p as u32 == predictor as u32 && o == offset && m == multiplier && i == id
        }
        _ => false,
    }
}
/// Each split leaves values on both sides, and no leaf is deeper than 2048.
#[allow(dead_code)]
fn valid(t: &[TreeNode], i: usize, depth: usize, r: &mut Vec<(i64, i64)>) -> bool {
    if depth > 2048 {
        return false;
    }
    let TreeNode::Split { property, val, left, right } = t[i] else { return true };
    let (l, u) = r[property as usize];
    let val = val as i64;
    if l > val || u <= val {
        return false;
    }
    r[property as usize] = (val + 1, u);
    let a = valid(t, left as usize, depth + 1, r);
    r[property as usize] = (l, val);
    let b = valid(t, right as usize, depth + 1, r);
    r[property as usize] = (l, u);
    a && b
}
#[cfg(not(kani))]
fn random_tree(n: usize, props: usize, vals: usize) -> Vec<TreeNode> {
    let deep: bool = vany();
    let mut t = vec![];
    let mut todo = 1;
    let mut id = 0;
    while todo > 0 {
        todo -= 1;
        if t.len() < n && (todo == 0 || deep && t.len() % 2 == 0 || !deep && vany()) {
            let left = (t.len() + todo + 1) as u32;
            t.push(TreeNode::Split { property: vrange(0, props - 1) as u8, val: match vrange(0, 15) { 0 => i32::MAX, 1 => i32::MIN, _ => vrange(0, vals) as i32 }, left, right: left + 1 });
            todo += 2;
        } else {
            t.push(TreeNode::Leaf { predictor: Predictor::Zero, offset: 0, multiplier: 1, id });
            id += 1;
        }
    }
    t
}
// kind: sampled(trees of up to 40 splits over up to 4 properties)
sampled!(c20_validate_sampled, {
    let props = vrange(1, 4);
    let t = random_tree(vrange(0, 40), props, [1, 5, 60, 4000][vrange(0, 3)]);
    let mut r = vec![(i32::MIN as i64, i32::MAX as i64); props];
    assert!(vok(validate_tree(&t, props)).is_some() == valid(&t, 0, 0, &mut r), "trees with unreachable branches are rejected");
});
// kind: sampled(chains of splits around the depth limit)
sampled!(c20_depth_sampled, {
    let n = vrange(2040, 2056);
    let mut t = vec![];
    for i in 0..n as u32 {
        t.push(TreeNode::Split { property: 0, val: i as i32, left: 2 * i + 2, right: 2 * i + 1 });
        t.push(TreeNode::Leaf { predictor: Predictor::Zero, offset: 0, multiplier: 1, id: i });
    }
    // The chain goes down on the side of the larger values.
    t.push(TreeNode::Leaf { predictor: Predictor::Zero, offset: 0, multiplier: 1, id: n as u32 });
    assert!(vok(validate_tree(&t, 1)).is_some() == (n <= 2048), "depth limit");
});

#[cfg(not(kani))]
mod read {
    use super::*;
    use crate::verif::bits::*;
    fn spec(br: &mut BitReader, limit: usize) -> Result<Vec<TreeNode>> {
        let h = Histograms::decode(6, br, true)?;
        let mut r = SymbolReader::new(&h, br, None)?;
        let mut t = vec![];
        // Nodes seen but not read yet.
        let mut open = 1;
        let mut leaves = 0;
        while open > 0 {
            if t.len() > limit {
                return Err(Error::TreeTooLarge(0, 0));
            }
            open -= 1;
            let p = r.read_unsigned(&h, br, 1);
            if p > 0 {
                let v = r.read_signed(&h, br, 0);
                let left = (t.len() + 1 + open) as u32;
                t.push(TreeNode::Split { property: u8::try_from(p - 1).map_err(|_| Error::InvalidProperty(p))?, val: v, left, right: left + 1 });
                open += 2;
            } else {
                let p = Predictor::try_from(r.read_unsigned(&h, br, 2))?;
                let offset = r.read_signed(&h, br, 3);
                let log = r.read_unsigned(&h, br, 4);
                let bits = if log < 31 { r.read_unsigned(&h, br, 5) as u128 } else { 0 };
                let m = (bits + 1) << log.min(31);
                if log >= 31 || m > u32::MAX as u128 {
                    return Err(Error::TreeMultiplierTooLarge(log, 31));
                }
                t.push(TreeNode::Leaf { predictor: p, offset, multiplier: m as u32, id: leaves });
                leaves += 1;
            }
        }
        r.check_final_state(&h, br)?;
        let mut ranges = vec![(i32::MIN as i64, i32::MAX as i64); 256];
        if valid(&t, 0, 0, &mut ranges) { Ok(t) } else { Err(Error::InvalidProperty(0)) }
    }
    pub fn run() {
        let mut w = BitW::default();
        w.put((vrange(0, 7) == 0) as u64, 1);
        if w.data[0] == 1 {
            w.put(0, 4);
            w.put(15, 4);
        }
        w.put(1, 1);
        w.put(3, 2);
        for i in 0..6 {
            w.put(i, 3);
        }
        if w.data[0] & 1 == 1 {
            w.put(vrange(0, 5) as u64, 3);
        }
        w.put(1, 1);
        let als = [vrange(1, 40), if vrange(0, 3) == 0 { vrange(250, 260) } else { vrange(1, 4) }, vrange(1, 15), vrange(1, 20), vrange(1, 3), vrange(1, 5)];
        for _ in 0..6 {
            if vrange(0, 9) == 0 { w.put(0, 4) } else { w.put(15, 4) }
        }
        for al in als {
            w.var(al - 1, 4);
        }
        for al in als {
            prefix::write(&mut w, al);
        }
        w.noise(vrange(0, 40));
        let limit = [0, 1, 5, 60, 200][vrange(0, 4)];
        let mut b2 = BitReader::new(&w.data);
        let want = spec(&mut b2, limit);
        let mut br = BitReader::new(&w.data);
        let got = Tree::read(&mut br, limit);
        match want {
            Err(_) => assert!(got.is_err(), "invalid trees are rejected"),
            Ok(t) => {
                let h = Histograms::decode(t.len().div_ceil(2), &mut b2, true);
                match (got, h) {
                    (Ok(g), Ok(h)) => {
                        assert!(g.nodes.len() == t.len() && g.nodes.iter().zip(&t).all(|(a, b)| same(a, b)), "every node");
                        let most = t.iter().map(|n| if let TreeNode::Split { property, .. } = n { *property as usize } else { 0 }).max().unwrap();
                        assert!(g.num_properties == most + 1, "properties used");
                        assert!(format!("{:?}", g.histograms) == format!("{h:?}"), "codes of the residuals");
                        assert!(br.total_bits_read() == b2.total_bits_read(), "bits");
                    }
                    (Err(_), Err(_)) => {}
                    (a, _) => assert!(a.is_err() && false, "valid trees are accepted, invalid codes rejected"),
                }
            }
        }
    }
}
// kind: sampled(trees over random prefix codes, size limits up to 200)
sampled!(c20_read_sampled, { read::run() });
