// C06: the decoded symbol stream: token -> value, LZ77 copies, context -> cluster, checkpoint/restore.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};
use crate::verif::tape::{any_tape, reader};

// kind: proof
tape_harness!(c06_varint16, unwind = 3, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let r = vok(decode_varint16(&mut br));
    let v = if s.read(1) == 1 {
        let n = s.read(4) as usize;
        (1 << n) + s.read(n)
    } else {
        0
    };
    if s.short {
        assert!(r.is_none(), "truncated");
    } else {
        assert!(r == Some(v as u16) && br.total_bits_read() == s.pos, "16-bit code");
    }
});

// kind: proof
harness!(c06_unpack_signed, {
    let u: u32 = vany();
    let want = if u % 2 == 0 { (u / 2) as i64 } else { -((u as i64 + 1) / 2) };
    assert!(unpack_signed(u) as i64 == want, "0, -1, 1, -2, 2, ...");
});

/// The 120 nearest already decoded pixels (x, y rows up), by distance, then |x|, positive before negative.
const NEAR: [(i64, i64); 120] = {
    const fn key(x: i64, y: i64) -> i64 {
        (x * x + y * y) * 1024 + if x < 0 { -2 * x + 1 } else { 2 * x }
    }
    let mut out = [(0, 0); 120];
    let mut last = -1;
    let mut k = 0;
    while k < 120 {
        let mut best = (i64::MAX, 0, 0);
        let mut i = 0;
        while i < 128 {
            let (x, y) = (i % 16 - 7, i / 16);
            if (y > 0 || x > 0) && key(x, y) > last && key(x, y) < best.0 {
                best = (key(x, y), x, y);
            }
            i += 1;
        }
        out[k] = (best.1, best.2);
        last = best.0;
        k += 1;
    }
    out
};
fn lz(mult: u32, n: u32) -> Lz77State {
    Lz77State { min_symbol: 0, min_length: 0, dist_multiplier: mult, window: Vec::new(), num_to_copy: 0, copy_pos: 0, num_decoded: n }
}
fn check(mult: u32, n: u32, sym: u32, d: i64) {
    let len: u32 = vany();
    let mut st = lz(mult, n);
    st.apply_copy(sym, len);
    let want = d.min(1 << 20).min(n as i64);
    assert!(st.copy_pos as i64 == n as i64 - want, "distance");
    assert!(st.num_to_copy == len && st.num_decoded == n, "length");
}

// kind: bounded(row lengths 1, 2, 8 and 1000003 for all codes; all row lengths up to 2^28 for codes 0, 3, 7, 60 and 119)
harness!(c06_short_distances, {
    let n = vrange(1, 1 << 31) as u32;
    let k = vrange(0, 119);
    let (x, y) = NEAR[k];
    match vrange(0, 3) {
        0 => check(1, n, k as u32, (x + y).max(1)),
        1 => check(2, n, k as u32, (x + 2 * y).max(1)),
        2 => check(8, n, k as u32, x + 8 * y),
        _ => check(1000003, n, k as u32, x + 1000003 * y),
    }
    let mult = vrange(1, 1 << 28) as u32;
    match vrange(0, 4) {
        0 => check(mult, n, 0, mult as i64),
        1 => check(mult, n, 3, (mult as i64 - 1).max(1)),
        2 => check(mult, n, 7, 2 * mult as i64 - 1),
        3 => check(mult, n, 60, NEAR[60].0 + mult as i64 * NEAR[60].1),
        _ => check(mult, n, 119, 8 + 7 * mult as i64),
    }
});

// kind: sampled(all 120 short codes at random row lengths and positions)
sampled!(c06_short_distances_sampled, {
    let (mult, n) = (vrange(1, 1 << 28) as u32, vrange(1, 1 << 31) as u32);
    for (k, (x, y)) in NEAR.iter().enumerate() {
        check(mult, n, k as u32, (x + mult as i64 * y).max(1));
    }
});

// kind: proof
harness!(c06_long_distances, {
    let mult = vrange(0, 1 << 28) as u32;
    let n = vrange(1, 1 << 31) as u32;
    let sym: u32 = vany();
    vassume(mult == 0 || sym >= 120);
    check(mult, n, sym, if mult == 0 { sym as i64 + 1 } else { sym as i64 - 119 });
});

#[cfg(kani)]
pub mod st {
    use super::*;
    pub static mut TOK: [u32; 3] = [0; 3];
    pub static mut CTX: [usize; 3] = [0; 3];
    pub static mut NT: usize = 0;
    pub static mut VAL: [u32; 3] = [0; 3];
    pub static mut IN: [(u32, u32); 3] = [(0, 0); 3];
    pub static mut NV: usize = 0;
    /// Contracts of the callees: any token, any value; which code and which token they were asked for is recorded.
    pub fn token(_h: &HuffmanCodes, _br: &mut BitReader, ctx: usize) -> u32 {
        unsafe {
            CTX[NT] = ctx;
            NT += 1;
            TOK[NT - 1]
        }
    }
    pub fn ans(_a: &mut AnsReader, _c: &AnsCodes, _br: &mut BitReader, ctx: usize) -> u32 {
        unsafe {
            CTX[NT] = ctx;
            NT += 1;
            TOK[NT - 1]
        }
    }
    pub fn value(h: &HybridUint, symbol: u32, _br: &mut BitReader) -> u32 {
        unsafe {
            IN[NV] = (h.split_token(), symbol);
            NV += 1;
            VAL[NV - 1]
        }
    }
}

fn hist(lz: bool, min_symbol: u32, min_length: u32, dist_cluster: u8, prefix: bool) -> Histograms {
    // Three clusters, told apart by their configuration; lengths have a fourth.
    let codes = if prefix { Codes::Huffman(HuffmanCodes::verif_empty()) } else { Codes::Ans(AnsCodes::verif_empty()) };
    Histograms {
        lz77_params: Lz77Params { enabled: lz, min_symbol: Some(min_symbol), min_length: Some(min_length) },
        lz77_length_uint: Some(HybridUint::verif(3, 0, 0)),
        context_map: Vec::from([0u8, 2, 1, 2]),
        lz_dist_cluster: dist_cluster,
        log_alpha_size: 8,
        uint_configs: Vec::from([HybridUint::verif(0, 0, 0), HybridUint::verif(1, 0, 0), HybridUint::verif(2, 0, 0)]),
        codes,
    }
}

#[cfg(kani)]
fn symbol<const LZ: bool, const N: usize>() {
    let buf = [0u8; 16];
    let t = Tape { t: 0, left: 128, pos: 0, short: false };
    let mut br = reader(&t, &buf);
    unsafe {
        st::TOK = kani::any();
        st::VAL = kani::any();
    }
    let (tok, val) = unsafe { (st::TOK, st::VAL) };
    let (min_symbol, min_length): (u32, u32) = (vany(), vany());
    vassume(min_length >= 3 && min_symbol >= 8);
    let dc = vrange(0, 2) as u8;
    let h = hist(LZ, min_symbol, min_length, dc, vany());
    // A history of N symbols, any pending copy.
    let past: [u32; N] = vany();
    let pending: u32 = vany();
    let from = vrange(0, 2);
    vassume(pending == 0 || from < N);
    let state = if LZ {
        let mut window = Vec::with_capacity(4);
        let mut i = 0;
        while i < N {
            window.push(past[i]);
            i += 1;
        }
        SymbolReaderState::Lz77(Lz77State { min_symbol, min_length, dist_multiplier: 0, window, num_to_copy: pending, copy_pos: from as u32, num_decoded: N as u32 })
    } else {
        SymbolReaderState::None
    };
    let mut r = SymbolReader { state, ans_reader: AnsReader::new_unused(), errors: ErrorState::new() };
    let cluster = vrange(0, 2);
    let got = r.read_unsigned_clustered(&h, &mut br, cluster);
    let (nt, nv) = unsafe { (st::NT, st::NV) };
    let mut copied = false;
    let mut bad = (false, false);
    if LZ && pending > 0 {
        assert!(got == past[from] && nt == 0 && nv == 0, "a pending copy yields the earlier symbol and reads nothing");
    } else {
        assert!(nt >= 1 && unsafe { st::CTX[0] } == cluster, "token of the cluster's code");
        if !LZ || tok[0] < min_symbol {
            assert!(got == val[0] && nt == 1 && nv == 1, "value of the token");
            assert!(unsafe { st::IN[0] } == (1 << cluster, tok[0]), "integer configuration of the cluster");
        } else if N == 0 {
            bad.0 = true;
            assert!(nt == 1, "a copy with no history is an error");
        } else {
            assert!(unsafe { st::IN[0] } == (8, tok[0] - min_symbol), "length token");
            if val[0].checked_add(min_length).is_none() {
                bad.1 = true;
                assert!(nt == 1, "length overflow is an error");
            } else {
                copied = true;
                assert!(nt == 2 && nv == 2 && unsafe { st::CTX[1] } == dc as usize, "distance token of the distance cluster");
                assert!(unsafe { st::IN[1] } == (1 << dc, tok[1]), "distance value");
                let back = (val[1] as usize + 1).min(N);
                assert!(got == past[N - back], "copied symbol");
                if let SymbolReaderState::Lz77(s) = &r.state {
                    assert!(s.num_to_copy == val[0] + min_length - 1 && s.copy_pos as usize == N - back + 1, "rest of the copy is pending");
                }
            }
        }
    }
    assert!((r.errors.lz77_repeat, r.errors.arithmetic_overflow) == bad, "errors");
    if let SymbolReaderState::Lz77(s) = &r.state {
        if bad == (false, false) {
            assert!(s.num_decoded as usize == N + 1 && s.window.len() == N + 1 && s.window[N] == got, "the symbol joins the history");
            let i = vrange(0, 2);
            assert!(i >= N || s.window[i] == past[i], "the history is kept");
        }
        if pending > 0 {
            assert!(s.num_to_copy == pending - 1 && s.copy_pos as usize == from + 1, "one symbol of the copy is used");
        } else if !copied {
            assert!(s.num_to_copy == 0, "no copy is pending");
        }
    }
    vcover!(copied || N == 0, "copy");
    std::mem::forget(r);
    std::mem::forget(h);
}

// kind: proof
tape_harness!(#[kani::stub(HuffmanCodes::read, st::token)] #[kani::stub(AnsReader::read, st::ans)] #[kani::stub(HybridUint::read, st::value)]
c06_plain_symbol, unwind = 6, {
    #[cfg(kani)]
    symbol::<false, 0>();
});
// kind: proof
tape_harness!(#[kani::stub(HuffmanCodes::read, st::token)] #[kani::stub(AnsReader::read, st::ans)] #[kani::stub(HybridUint::read, st::value)]
c06_first_symbol, unwind = 6, {
    #[cfg(kani)]
    symbol::<true, 0>();
});
// kind: bounded(a history of 2 symbols; any pending copy, tokens and values)
tape_harness!(#[kani::stub(HuffmanCodes::read, st::token)] #[kani::stub(AnsReader::read, st::ans)] #[kani::stub(HybridUint::read, st::value)]
c06_next_symbol, unwind = 6, {
    #[cfg(kani)]
    symbol::<true, 2>();
});

#[cfg(kani)]
pub fn clustered(_r: &mut SymbolReader, _h: &Histograms, _br: &mut BitReader, cluster: usize) -> u32 {
    unsafe {
        st::CTX[0] = cluster;
        st::NT += 1;
        st::VAL[0]
    }
}
// kind: proof
tape_harness!(#[kani::stub(SymbolReader::read_unsigned_clustered_inline, clustered)]
c06_entry_points, unwind = 6, {
    #[cfg(kani)]
    {
        let buf = [0u8; 16];
        let t = Tape { t: 0, left: 128, pos: 0, short: false };
        let mut br = reader(&t, &buf);
        let h = hist(false, 8, 3, 0, true);
        let mut r = SymbolReader { state: SymbolReaderState::None, ans_reader: AnsReader::new_unused(), errors: ErrorState::new() };
        let v: u32 = vany();
        unsafe { st::VAL[0] = v };
        let ctx = vrange(0, 3);
        let cluster = [0usize, 2, 1, 2][ctx];
        let signed = unpack_signed(v);
        match vrange(0, 3) {
            0 => assert!(r.read_unsigned(&h, &mut br, ctx) == v, "unsigned by context"),
            1 => assert!(r.read_signed(&h, &mut br, ctx) == signed, "signed by context"),
            2 => assert!(r.read_signed_clustered(&h, &mut br, cluster) == signed, "signed by cluster"),
            _ => assert!(r.read_unsigned_clustered(&h, &mut br, cluster) == v, "unsigned by cluster"),
        }
        assert!(unsafe { st::NT == 1 && st::CTX[0] == cluster }, "one symbol, of the context's cluster");
        std::mem::forget(r);
        std::mem::forget(h);
    }
});

// kind: proof
tape_harness!(c06_final_state, unwind = 6, {
    let mut buf = [0u8; 16];
    let s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let prefix: bool = vany();
    let h = hist(false, 0, 0, 0, prefix);
    let over = vrange(0, 200);
    for _ in 0..4 {
        br.consume_optimistic(over / 4);
    }
    let st: u32 = vany();
    let e = ErrorState { lz77_repeat: vany(), arithmetic_overflow: vany() };
    let bad = e.lz77_repeat || e.arithmetic_overflow;
    let r = SymbolReader { state: SymbolReaderState::None, ans_reader: AnsReader::verif(st), errors: e };
    let ok = vok(r.check_final_state(&h, &mut br)).is_some();
    let truncated = over / 4 * 4 > s.left;
    assert!(ok == (!bad && !truncated && (prefix || st == 0x130000)), "a stream is accepted iff complete, error free and in the final state");
    std::mem::forget(h);
});

// kind: sampled(short histories and histories around the 2^20-symbol window boundary; checkpoints of 1, 2 and 8 symbols)
sampled!(c06_window_sampled, {
    const W: usize = 1 << 20;
    let n = match vrange(0, 7) { 0 => W - vrange(0, 10), 1 => W + vrange(0, 20), _ => vrange(1, 12) };
    let at = |i: usize| (i as u32).wrapping_mul(0x9E3779B1);
    let mut window = vec![0u32; n.min(W)];
    for i in n.saturating_sub(W)..n {
        window[i % W] = at(i);
    }
    let mut s = Lz77State { min_symbol: 8, min_length: 3, dist_multiplier: 0, window, num_to_copy: 0, copy_pos: 0, num_decoded: n as u32 };
    let mut hist: std::collections::HashMap<usize, u32> = Default::default();
    let mut r = SymbolReader { state: SymbolReaderState::None, ans_reader: AnsReader::new_unused(), errors: ErrorState::new() };
    let get = |h: &std::collections::HashMap<usize, u32>, i: usize| h.get(&i).copied().unwrap_or(at(i));
    let mut pos = n;
    let mut pend = (0usize, 0usize);
    for _ in 0..6 {
        if vany() {
            let d = match vrange(0, 2) { 0 => vrange(0, 20), 1 => W - 1 - vrange(0, 20), _ => vany::<u32>() as usize };
            let len = vrange(1, 20);
            s.apply_copy(d as u32, len as u32);
            pend = (pos - (d + 1).min(W).min(pos), len);
        }
        let take = vrange(0, 12);
        let mut step = |s: &mut Lz77State, hist: &mut std::collections::HashMap<usize, u32>, pos: &mut usize, pend: &mut (usize, usize)| {
            let got = s.pull_symbol();
            let want = if pend.1 > 0 {
                let v = get(hist, pend.0);
                *pend = (pend.0 + 1, pend.1 - 1);
                Some(v)
            } else {
                None
            };
            assert!(got == want, "copied symbol");
            let v = want.unwrap_or(vany());
            s.push_decoded_symbol(v);
            hist.insert(*pos, v);
            *pos += 1;
        };
        for _ in 0..take {
            step(&mut s, &mut hist, &mut pos, &mut pend);
        }
        // speculate and roll back
        r.state = SymbolReaderState::Lz77(s);
        let (h0, p0, q0) = (hist.clone(), pos, pend);
        macro_rules! roll { ($n:literal) => {{
            let cp = r.checkpoint::<$n>();
            if let SymbolReaderState::Lz77(s) = &mut r.state {
                for _ in 0..vrange(0, $n) {
                    step(s, &mut hist, &mut pos, &mut pend);
                }
            }
            r.restore(cp);
        }}}
        match vrange(0, 2) { 0 => roll!(1), 1 => roll!(2), _ => roll!(8) }
        (hist, pos, pend) = (h0, p0, q0);
        let SymbolReaderState::Lz77(back) = std::mem::replace(&mut r.state, SymbolReaderState::None) else { unreachable!() };
        s = back;
        assert!(s.num_decoded as usize == pos, "position");
    }
});
