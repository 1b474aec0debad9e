// C20: the header of a modular sub-bitstream.
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};
#[allow(unused_imports)]
use crate::verif::{Rd, Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};

const BEGIN: [(usize, u64); 4] = [(3, 0), (6, 8), (10, 72), (13, 1096)];

fn weights<R: Rd>(s: &mut R) -> [u64; 12] {
    let mut v = [1, 16, 10, 7, 7, 7, 0, 0, 13, 12, 12, 12];
    if !s.flag() {
        v[0] = 0;
        for i in 0..7 {
            v[1 + i] = s.get(5);
        }
        for i in 0..4 {
            v[8 + i] = s.get(4);
        }
    }
    v
}
fn dump(h: &WeightedHeader) -> [u64; 12] {
    [h.all_default as u64, h.p1c as u64, h.p2c as u64, h.p3ca as u64, h.p3cb as u64, h.p3cc as u64, h.p3cd as u64, h.p3ce as u64, h.w0 as u64, h.w1 as u64, h.w2 as u64, h.w3 as u64]
}
fn same(a: [u64; 12], b: [u64; 12]) -> bool {
    let mut i = 0;
    while i < 12 {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn squeeze<R: Rd>(s: &mut R) -> (bool, bool, u64, u64) {
    let (h, p) = (s.flag(), s.flag());
    let b = s.sel(BEGIN);
    (h, p, b, s.sel([(0, 1), (0, 2), (0, 3), (4, 4)]))
}
/// (id, begin, type, channels, colours, deltas, predictor, number of squeezes); None when not a defined transform.
fn transform<R: Rd>(s: &mut R) -> Option<[u64; 8]> {
    let id = s.get(2);
    let begin = if id < 2 { s.sel(BEGIN) } else { 0 };
    let mut t = [id, begin, 6, 3, 256, 0, 0, 0];
    match id {
        0 => t[2] = s.sel([(0, 6), (2, 0), (4, 2), (6, 10)]),
        1 => {
            t[3] = s.sel([(0, 1), (0, 3), (0, 4), (13, 1)]);
            t[4] = s.sel([(8, 0), (10, 256), (12, 1280), (16, 5376)]);
            t[5] = s.sel([(0, 0), (8, 1), (10, 257), (16, 1281)]);
            t[6] = s.get(4);
        }
        2 => t[7] = s.sel([(0, 0), (4, 1), (6, 9), (8, 41)]),
        _ => return None,
    }
    (t[2] < 42 && t[6] < 14).then_some(t)
}
#[allow(dead_code)]
fn dump_transform(t: &Transform) -> [u64; 8] {
    [t.id as u64, t.begin_channel as u64, t.rct_type as u64, t.num_channels as u64, t.num_colors as u64, t.num_deltas as u64, t.predictor_id as u64, t.squeezes.len() as u64]
}

// kind: proof
tape_harness!(c20_weights_header, unwind = 13, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let r = vok(WeightedHeader::read_unconditional(&(), &mut br, &encodings::Empty {}));
    let v = weights(&mut s);
    match r {
        None => assert!(s.short, "only truncated headers are rejected"),
        Some(h) => {
            assert!(!s.short && same(dump(&h), v), "every parameter");
            assert!(br.total_bits_read() == s.pos, "bits");
        }
    }
});
// kind: proof
tape_harness!(c20_squeeze_params, unwind = 10, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let r = vok(SqueezeParams::read_unconditional(&(), &mut br, &encodings::Empty {}));
    let v = squeeze(&mut s);
    match r {
        None => assert!(s.short, "only truncated ones are rejected"),
        Some(q) => {
            assert!(!s.short && (q.horizontal, q.in_place) == (v.0, v.1) && q.begin_channel as u64 == v.2 && q.num_channels as u64 == v.3, "squeeze step");
            assert!(br.total_bits_read() == s.pos, "bits");
        }
    }
});
// kind: sampled(headers with up to 273 transforms, from random bits)
sampled!(c20_group_header_sampled, {
    use crate::headers::JxlHeader;
    use crate::verif::bits::*;
    let mut w = BitW::default();
    w.put(vany::<u8>() as u64, 1);
    if vany() { w.put(1, 1) } else { w.put(0, 1); w.noise(6); w.put(vany::<u8>() as u64, 3) }
    let n = match vrange(0, 3) {
        0 => { w.put(0, 2); 0 }
        1 => { w.put(1, 2); 1 }
        2 => { let k = vrange(0, 15); w.put(2, 2); w.put(k as u64, 4); k + 2 }
        _ => { let k = vrange(0, 3); w.put(3, 2); w.put(k as u64, 8); k + 18 }
    };
    for _ in 0..n {
        let id = if vrange(0, 63) == 0 { 3 } else { vrange(0, 2) };
        w.put(id as u64, 2);
        if id < 2 {
            let k = vrange(0, 3);
            w.put(k as u64, 2);
            w.put(vany::<u16>() as u64, BEGIN[k].0);
        }
        match id {
            0 => {
                let k = vrange(0, 3);
                w.put(k as u64, 2);
                w.put(if k == 3 { vrange(0, 40).min(31 + vrange(0, 1)) as u64 } else { vany::<u8>() as u64 }, [0, 2, 4, 6][k]);
            }
            1 => {
                for b in [[0, 0, 0, 13], [8, 10, 12, 16], [0, 8, 10, 16]] {
                    let k = vrange(0, 3);
                    w.put(k as u64, 2);
                    w.put(vany::<u16>() as u64, b[k]);
                }
                w.put(if vrange(0, 31) == 0 { 15 } else { vrange(0, 13) as u64 }, 4);
            }
            2 => {
                let k = vrange(0, 1);
                w.put(k as u64, 2);
                let m = if k == 1 { let m = vrange(0, 15); w.put(m as u64, 4); m + 1 } else { 0 };
                for _ in 0..m {
                    w.put(vany::<u8>() as u64, 2);
                    let k = vrange(0, 3);
                    w.put(k as u64, 2);
                    w.put(vany::<u16>() as u64, BEGIN[k].0);
                    let k = vrange(0, 3);
                    w.put(k as u64, 2);
                    w.put(vany::<u8>() as u64, [0, 0, 0, 4][k]);
                }
            }
            _ => {}
        }
    }
    w.mutate();
    let mut br = BitReader::new(&w.data);
    let r = vok(GroupHeader::read(&mut br));
    let mut s = BitS::new(&w.data);
    let global = s.flag();
    let wp = weights(&mut s);
    let n = s.sel([(0, 0), (0, 1), (4, 2), (8, 18)]);
    let mut ts = vec![];
    let mut ok = !s.short;
    for _ in 0..n {
        if !ok {
            break;
        }
        let Some(t) = transform(&mut s) else { ok = false; break };
        let q: Vec<_> = (0..t[7]).map(|_| squeeze(&mut s)).collect();
        ok &= !s.short;
        ts.push((t, q));
    }
    match r {
        None => assert!(!ok, "valid headers are accepted"),
        Some(h) => {
            assert!(ok, "invalid headers are rejected");
            assert!(h.use_global_tree == global && same(dump(&h.wp_header), wp) && h.transforms.len() == ts.len(), "header");
            for (a, (t, q)) in h.transforms.iter().zip(&ts) {
                assert!(dump_transform(a) == *t, "transform");
                for (a, b) in a.squeezes.iter().zip(q) {
                    assert!((a.horizontal, a.in_place, a.begin_channel as u64, a.num_channels as u64) == *b, "squeeze step");
                }
            }
            assert!(br.total_bits_read() == s.pos, "bits");
        }
    }
});
