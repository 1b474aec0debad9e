// C07: the layout of an entropy-code header, over the contracts of its parts.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};

// kind: sampled(entropy-code headers for up to 12 contexts, with and without LZ77, prefix and ANS codes)
sampled!(c07_histograms_sampled, {
    use crate::verif::bits::*;
    let n = vrange(1, 12);
    let mut w = BitW::default();
    let lz = vrange(0, 1);
    w.put(lz as u64, 1);
    if lz == 1 {
        w.put(vany::<u16>() as u64, 4);
        w.put(8, 4);
    }
    let nc = n + lz;
    let mut clusters = 1;
    if nc > 1 {
        let b = vrange(0, 3);
        w.put(1, 1);
        w.put(b as u64, 2);
        for i in 0..nc {
            w.put((i as u64) & ((1 << b) - 1), b);
        }
        clusters = nc.min(1 << b);
    }
    let pre = vrange(0, 1);
    w.put(pre as u64, 1);
    if pre == 0 {
        w.put(vany::<u8>() as u64, 2);
    }
    for _ in 0..clusters {
        if pre == 1 { w.put(15, 4) } else { w.put(0, 4); }
    }
    if pre == 1 {
        let mut als = vec![];
        for _ in 0..clusters {
            als.push(vrange(1, 12));
            w.var(als.last().unwrap() - 1, 4);
        }
        for al in als {
            prefix::write(&mut w, al);
        }
    } else {
        for _ in 0..clusters {
            // one symbol, or evenly distributed
            if vany() { w.put(1, 2) } else { w.put(2, 2) }
            w.var8(vrange(0, 31));
        }
    }
    w.noise(6);
    w.mutate();
    let allow: bool = vrange(0, 7) > 0;
    let mut br = BitReader::new(&w.data);
    let r = vok(Histograms::decode(n, &mut br, allow));
    let mut b2 = BitReader::new(&w.data);
    let want = (|| -> Result<Histograms> {
        let mut p = Lz77Params { enabled: b2.read(1)? == 1, min_symbol: None, min_length: None };
        let mut lu = None;
        let mut nc = n;
        if p.enabled {
            p.min_symbol = Some(match b2.read(2)? { 0 => 224, 1 => 512, 2 => 4096, _ => b2.read(15)? as u32 + 8 });
            p.min_length = Some(match b2.read(2)? { 0 => 3, 1 => 4, 2 => b2.read(2)? as u32 + 5, _ => b2.read(8)? as u32 + 9 });
            if !allow {
                return Err(Error::Lz77Disallowed);
            }
            nc += 1;
            lu = Some(HybridUint::decode(8, &mut b2)?);
        }
        let map = if nc == 1 { vec![0] } else { decode_context_map(nc, &mut b2)? };
        let pre = b2.read(1)? == 1;
        let la = if pre { 15 } else { 5 + b2.read(2)? as usize };
        let k = *map.iter().max().unwrap() as usize + 1;
        let mut cfg = vec![];
        for _ in 0..k {
            cfg.push(HybridUint::decode(la, &mut b2)?);
        }
        let codes = if pre { Codes::Huffman(HuffmanCodes::decode(k, &mut b2)?) } else { Codes::Ans(AnsCodes::decode(k, la, &mut b2)?) };
        let dc = if p.enabled { *map.last().unwrap() } else { 0 };
        Ok(Histograms { lz77_params: p, lz77_length_uint: lu, context_map: map, lz_dist_cluster: dc, log_alpha_size: la, uint_configs: cfg, codes })
    })();
    match want {
        Err(_) => assert!(r.is_none(), "invalid headers are rejected"),
        Ok(h) => {
            let mut r = r.expect("valid headers are accepted");
            assert!(format!("{r:?}") == format!("{h:?}"), "every field of the header");
            assert!(br.total_bits_read() == b2.total_bits_read(), "bits");
            let c = vrange(0, n - 1);
            assert!(r.map_context_to_cluster(c) == h.context_map[c] as usize, "cluster");
            let k = *h.context_map.iter().max().unwrap() as usize + 1;
            assert!(r.num_histograms() == k, "number of codes");
            let fast = !h.lz77_params.enabled && h.uint_configs.iter().all(|c| format!("{c:?}") == "HybridUint { split_token: 16, split_exponent: 4, msb_in_token: 2, lsb_in_token: 0 }");
            assert!(r.can_use_config_420_fast_path() == fast, "fast path only for plain 4-2-0 codes");
            // Growing the map keeps its entries and the distance code.
            let d = r.lz_dist_cluster;
            r.resize(n + 5);
            assert!(r.map_context_to_cluster(c) == h.context_map[c] as usize && r.lz_dist_cluster == d, "resize");
        }
    }
});
