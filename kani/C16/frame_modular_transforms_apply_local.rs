// C16: lists of transforms are undone in reverse.
// native: simd
#[allow(unused_imports)]
use crate::headers::bit_depth::BitDepth;
#[allow(unused_imports)]
use crate::headers::modular::{SqueezeParams, Transform, TransformId, WeightedHeader};
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};
#[allow(dead_code)]
mod modref {
    include!(concat!(env!("JXL_VERIF_DIR"), "/modref.rs"));
}
use modref::{Ch, Tr};

#[cfg(not(kani))]
mod chain {
    use super::*;
    fn wp() -> (WeightedHeader, modref::WpHeader) {
        let p: [u32; 7] = std::array::from_fn(|_| vrange(0, 31) as u32);
        let w: [u32; 4] = std::array::from_fn(|_| vrange(0, 15) as u32);
        (
            WeightedHeader { all_default: false, p1c: p[0], p2c: p[1], p3ca: p[2], p3cb: p[3], p3cc: p[4], p3cd: p[5], p3ce: p[6], w0: w[0], w1: w[1], w2: w[2], w3: w[3] },
            modref::WpHeader { p1: p[0] as i64, p2: p[1] as i64, p3: std::array::from_fn(|i| p[2 + i] as i64), w: w.map(|x| x as u64) },
        )
    }
    fn base(id: TransformId) -> Transform {
        Transform { id, begin_channel: 0, rct_type: 6, num_channels: 3, num_colors: 256, num_deltas: 0, predictor_id: 0, squeezes: vec![] }
    }
    pub fn run() {
        let depth = [1, 4, 8, 9, 12, 16, 24, 31][vrange(0, 7)];
        let bd = BitDepth::integer_samples(depth);
        let n = vrange(1, 4);
        let (w, h) = (vrange(1, 20), vrange(1, 20));
        let mut outs: Vec<ModularChannel> = vec![];
        for i in 0..n {
            let small = i > 0 && vrange(0, 5) == 0;
            let size = if small { (w.div_ceil(2), h.div_ceil(2)) } else { (w, h) };
            outs.push(ModularChannel::new_with_shift(size, Some(if small { (1, 1) } else { (0, 0) }), bd).unwrap());
        }
        let mut list: Vec<Ch> = outs.iter().map(|c| Ch::new(c.data.size().0, c.data.size().1, c.shift)).collect();
        let (wph, wpr) = wp();
        let mut coded = vec![];
        let mut flat: Vec<Tr> = vec![];
        let mut fails = false;
        for _ in 0..vrange(0, 4) {
            let k = list.len();
            let begin = vrange(0, k);
            let mut this = vec![];
            let mut t;
            match vrange(0, 3) {
                0 => {
                    t = base(TransformId::Rct);
                    t.begin_channel = begin as u32;
                    t.rct_type = vrange(0, 41) as u32;
                    this.push(Tr::Rct { begin, ty: t.rct_type });
                }
                1 => {
                    t = base(TransformId::Palette);
                    t.begin_channel = begin as u32;
                    t.num_channels = vrange(1, 3) as u32;
                    t.num_colors = vrange(0, 20) as u32;
                    t.num_deltas = if vany() { vrange(0, 4) as u32 } else { 0 };
                    t.predictor_id = vrange(0, 13) as u32;
                    this.push(Tr::Palette { begin, num: t.num_channels as usize, colors: t.num_colors as usize, deltas: t.num_deltas as usize, predictor: t.predictor_id });
                }
                2 => {
                    t = base(TransformId::Squeeze);
                    for _ in 0..vrange(1, 3) {
                        let p = SqueezeParams { horizontal: vany(), in_place: vany(), begin_channel: vrange(0, k) as u32, num_channels: vrange(1, 3) as u32 };
                        this.push(Tr::Squeeze { horizontal: p.horizontal, in_place: p.in_place, begin: p.begin_channel as usize, num: p.num_channels as usize });
                        t.squeezes.push(p);
                    }
                }
                _ => {
                    t = base(TransformId::Squeeze);
                    this = modref::default_squeezes(&list);
                }
            }
            coded.push(t);
            for s in this {
                match modref::forward(&s, &list) {
                    Some(l) => {
                        list = l;
                        flat.push(s);
                    }
                    None => fails = true,
                }
                if fails {
                    break;
                }
            }
            if fails {
                break;
            }
        }
        let header = GroupHeader { use_global_tree: false, wp_header: wph, transforms: coded };
        let mut storage = vec![];
        let steps = {
            let r = meta_apply_local_transforms(outs.iter_mut().collect(), &mut storage, &header);
            let Ok((bufs, steps)) = r else {
                assert!(fails, "a valid list of transforms was rejected");
                return;
            };
            assert!(!fails, "an invalid list of transforms was accepted");
            assert!(bufs.len() == list.len(), "number of coded channels");
            let range = 1i64 << [3, 8, 20][vrange(0, 2)];
            for (b, c) in bufs.into_iter().zip(list.iter_mut()) {
                let empty = c.px.is_empty();
                assert!((b.data.size() == (c.w, c.h) || empty && (b.data.size().0 == 0 || b.data.size().1 == 0)) && b.shift == c.shift, "coded channel");
                for i in 0..c.px.len() {
                    let v = (vrange(0, (2 * range) as usize) as i64 - range) as i32;
                    c.px[i] = v;
                    b.data.row_mut(i / c.w)[i % c.w] = v;
                }
            }
            steps
        };
        for s in steps.iter().rev() {
            s.local_apply(&mut storage).unwrap();
        }
        drop(storage);
        for t in flat.iter().rev() {
            list = modref::inverse(t, list, &wpr, depth);
        }
        assert!(list.len() == outs.len(), "reference");
        for (a, b) in outs.iter().zip(&list) {
            for i in 0..b.px.len() {
                assert!(a.data.row(i / b.w)[i % b.w] == b.px[i], "samples after undoing the transforms");
            }
        }
    }
}
// kind: sampled(1 to 4 channels up to 20x20, up to 4 transforms)
sampled!(c16_chain_sampled, { chain::run() });
