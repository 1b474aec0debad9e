// C04: ANS distributions, alias tables and the decoding step.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};
use crate::verif::tape::{any_tape, reader};

/// The fixed prefix code of distribution log-counts, by its code words (first bit = least significant).
fn prefix_spec(s: &mut Tape) -> u16 {
    let w = s.t as u32 & 127;
    let (v, n) = if w & 7 == 0 { (10, 3) }
        else if w & 7 == 2 { (7, 3) }
        else if w & 7 == 4 { (6, 3) }
        else if w & 7 == 5 { (8, 3) }
        else if w & 7 == 6 { (9, 3) }
        else if w & 15 == 3 { (3, 4) }
        else if w & 15 == 7 { (5, 4) }
        else if w & 15 == 9 { (4, 4) }
        else if w & 15 == 11 { (1, 4) }
        else if w & 15 == 15 { (2, 4) }
        else if w & 31 == 17 { (0, 5) }
        else if w & 63 == 33 { (11, 6) }
        else if w == 1 { (12, 7) }
        else { (13, 7) };
    if n > s.left { s.short = true } else { s.read(n); }
    v
}
fn u8_spec(s: &mut Tape) -> usize {
    if s.read(1) == 1 {
        let n = s.read(3) as usize;
        (1 << n) + s.read(n) as usize
    } else {
        0
    }
}

// kind: proof
tape_harness!(c04_prefix_and_u8, unwind = 8, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    if vany() {
        let r = vok(AnsHistogram::read_prefix(&mut br));
        let w = prefix_spec(&mut s);
        // A code word longer than what is left is an error; otherwise the exact symbol and width.
        if s.short {
            vassume(s.left == 0 || r.is_none());
        } else {
            assert!(r == Some(w) || (s.left < 7 && s.pos > 7), "log-count symbol");
            assert!(br.total_bits_read() == s.pos, "width");
        }
    } else {
        let r = vok(AnsHistogram::read_u8(&mut br));
        let w = u8_spec(&mut s);
        if s.short {
            assert!(r.is_none(), "truncated");
        } else {
            assert!(r == Some(w as u8) && br.total_bits_read() == s.pos, "8-bit code");
        }
    }
});

fn simple_distributions<const N: usize>(mut s: Tape, br: &mut BitReader, which: usize) {
    let mut dist = [0u16; N];
    let j = vrange(0, N - 1);
    let (r, n, want);
    match which {
        0 => {
            r = vok(AnsHistogram::decode_dist_two_symbols(br, &mut dist));
            let (a, b) = (u8_spec(&mut s), u8_spec(&mut s));
            let p = s.read(12) as u16;
            n = if a == b { N + 1 } else { a.max(b) + 1 };
            want = if j == a { p } else if j == b { 4096 - p } else { 0 };
        }
        1 => {
            r = vok(AnsHistogram::decode_dist_single_symbol(br, &mut dist));
            let a = u8_spec(&mut s);
            n = a + 1;
            want = if j == a { 4096 } else { 0 };
        }
        _ => {
            r = vok(AnsHistogram::decode_dist_evenly_distributed(br, &mut dist));
            n = u8_spec(&mut s) + 1;
            want = if j < n { (4096 / n + (j < 4096 % n) as usize) as u16 } else { 0 };
        }
    }
    if s.short || n > N {
        assert!(r.is_none(), "symbols belong to the alphabet");
    } else {
        assert!(r == Some(n), "alphabet size");
        assert!(dist[j] == want, "distribution");
        assert!(br.total_bits_read() == s.pos, "bits");
    }
}

// kind: proof
tape_harness!(c04_two_symbols, unwind = 6, {
    let mut buf = [0u8; 16];
    let s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    simple_distributions::<32>(s, &mut br, 0);
});

// kind: proof
tape_harness!(c04_single_symbol, unwind = 6, {
    let mut buf = [0u8; 16];
    let s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    simple_distributions::<32>(s, &mut br, 1);
});

// kind: bounded(tables of 8 symbols)
tape_harness!(c04_even, unwind = 10, {
    let mut buf = [0u8; 16];
    let s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    simple_distributions::<8>(s, &mut br, 2);
});

/// The complex distribution code; None when the code is invalid. `N` is the table size.
fn complex_spec<const N: usize>(s: &mut Tape, unspecified: &mut bool) -> Option<(usize, [u16; N])> {
    let mut len = 0;
    while len < 3 && s.read(1) == 1 {
        len += 1;
    }
    let shift = s.read(len) as i32 + (1 << len) - 1;
    if shift > 13 {
        return None;
    }
    let n = u8_spec(s) + 3;
    if n > N {
        return None;
    }
    let mut logc = [0u16; N];
    let mut same = [0usize; N];
    let mut omit: usize = N;
    let mut skip = 0;
    let mut i = 0;
    while i < N {
        if i < n {
            if skip > 0 {
                skip -= 1;
            } else {
                logc[i] = prefix_spec(s);
                if logc[i] == 13 {
                    same[i] = u8_spec(s) + 4;
                    // A run past the alphabet: decoders differ (clipped or rejected).
                    if i + same[i] > n {
                        *unspecified = true;
                    }
                    skip = same[i] - 1;
                } else if omit == N || logc[i] > logc[omit] {
                    omit = i;
                }
            }
        }
        i += 1;
    }
    if omit == N || (omit + 1 < n && same[omit + 1] > 0) {
        return None;
    }
    let mut d = [0u16; N];
    let mut total = 0u32;
    let mut numsame = 0;
    let mut prev = 0;
    i = 0;
    while i < N {
        if i < n {
            if same[i] > 0 {
                numsame = same[i];
                prev = if i > 0 { d[i - 1] } else { 0 };
            }
            if numsame > 0 {
                d[i] = prev;
                numsame -= 1;
            } else if i != omit && logc[i] > 0 {
                let z = logc[i] as i32 - 1;
                let bits = (shift - ((12 - z) >> 1)).clamp(0, z);
                d[i] = (1 << z) + ((s.read(bits as usize) as u16) << (z - bits));
            }
            total += d[i] as u32;
            if total >= 4096 {
                return None;
            }
        }
        i += 1;
    }
    if s.short {
        return None;
    }
    d[omit] = (4096 - total) as u16;
    Some((n, d))
}

fn complex<const N: usize>(mut s: Tape, br: &mut BitReader) {
    let mut dist = [0u16; N];
    let r = vok(AnsHistogram::decode_dist_complex(br, &mut dist));
    let mut free = false;
    match complex_spec::<N>(&mut s, &mut free) {
        None => assert!(r.is_none(), "invalid distributions are rejected"),
        Some((n, d)) => {
            if free && r.is_none() {
                return;
            }
            assert!(r == Some(n), "valid distributions are accepted");
            let j = vrange(0, N - 1);
            assert!(dist[j] == d[j], "distribution");
            assert!(br.total_bits_read() == s.pos, "bits");
        }
    }
}

/// Writes the complex code of random log-counts and runs into a tape.
#[cfg(not(kani))]
fn sample_complex(n: usize) -> ([u8; 16], Tape) {
    let mut v: u128 = 0;
    let mut pos = 0;
    let mut put = |x: u128, b: usize| {
        if pos + b <= 128 {
            v |= (x & ((1 << b) - 1)) << pos;
        }
        pos += b;
    };
    // shift
    let l = vrange(0, 3);
    for i in 0..3 {
        if i < l {
            put(1, 1)
        } else {
            put(0, 1);
            break;
        }
    }
    put(vany::<u8>() as u128, l);
    let mut u8c = |x: usize, put: &mut dyn FnMut(u128, usize)| {
        if x == 0 {
            put(0, 1)
        } else {
            put(1, 1);
            let k = x.ilog2() as usize;
            put(k as u128, 3);
            put((x - (1 << k)) as u128, k);
        }
    };
    u8c(n - 3, &mut put);
    const W: [(u128, usize); 14] = [(17, 5), (11, 4), (15, 4), (3, 4), (9, 4), (7, 4), (4, 3), (2, 3), (5, 3), (6, 3), (0, 3), (33, 6), (1, 7), (65, 7)];
    let mut i = 0;
    while i < n {
        let c = if vrange(0, 3) == 0 { 13 } else { vrange(0, 9) };
        put(W[c].0, W[c].1);
        if c == 13 {
            let k = vrange(0, (n - i).saturating_sub(4));
            u8c(k, &mut put);
            i += 4 + k;
        } else {
            i += 1;
        }
    }
    for _ in 0..8 {
        put(vany::<u8>() as u128, 8);
    }
    (v.to_le_bytes(), Tape { t: v, left: 128, pos: 0, short: false })
}

// kind: sampled(complete distribution codes over alphabets of 3 to 32 symbols that fit in 128 bits)
sampled!(c04_complex_sampled, {
    let (buf, s) = sample_complex(vrange(3, 32));
    let mut br = reader(&s, &buf);
    complex::<32>(s, &mut br);
});

// kind: sampled(every shape of simple distribution over 32- and 256-entry tables)
sampled!(c04_simple_sampled, {
    let mut buf = [0u8; 16];
    let s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    if vany() { simple_distributions::<32>(s, &mut br, vrange(0, 2)) } else { simple_distributions::<256>(s, &mut br, vrange(0, 2)) }
});

fn lookup(t: &[Bucket], lbs: usize, idx: usize) -> (usize, usize, usize) {
    let b = &t[idx >> lbs];
    let pos = idx & ((1 << lbs) - 1);
    if pos >= b.alias_cutoff as usize {
        (b.alias_symbol as usize, b.alias_offset as usize + pos, (b.dist ^ b.alias_dist_xor) as usize)
    } else {
        (idx >> lbs, pos, b.dist as usize)
    }
}

fn any_dist<const N: usize>(lbs: usize) -> ([u16; N], usize) {
    let mut dist = [0u16; N];
    let total = N << lbs;
    let mut left = total;
    for i in 0..N {
        dist[i] = if i == N - 1 { left as u16 } else { vrange(0, left) as u16 };
        left -= dist[i] as usize;
    }
    let mut n = N;
    while n > 1 && dist[n - 1] == 0 {
        n -= 1;
    }
    (dist, n)
}
/// The slots partition among the symbols: each symbol owns exactly its probability, with offsets 0..probability.
fn alias_bijection<const N: usize>(lbs: usize, dist: &[u16; N], t: &[Bucket]) {
    let (a, b) = (vrange(0, (N << lbs) - 1), vrange(0, (N << lbs) - 1));
    let (sa, oa, da) = lookup(t, lbs, a);
    let (sb, ob, _) = lookup(t, lbs, b);
    assert!(sa < N && da == dist[sa] as usize, "the slot's symbol carries its probability");
    assert!(oa < da, "offset below the probability");
    assert!(a == b || sa != sb || oa != ob, "no two slots share (symbol, offset)");
}
/// The exact table of the format: overfull and underfull symbols are paired last-in first-out.
fn alias_order<const N: usize>(lbs: usize, n: usize, dist: &[u16; N], t: &[Bucket]) {
    let size = 1u16 << lbs;
    let mut cutoff = *dist;
    let mut sym = [0usize; N];
    let mut off = [0u16; N];
    let (mut over, mut under) = ([0usize; N], [0usize; N]);
    let (mut no, mut nu) = (0, 0);
    let mut i = 0;
    while i < N {
        sym[i] = if i < n { i } else { 0 };
        if cutoff[i] > size {
            over[no] = i;
            no += 1;
        } else if cutoff[i] < size {
            under[nu] = i;
            nu += 1;
        }
        i += 1;
    }
    i = 0;
    while i < N {
        if no > 0 && nu > 0 {
            let (o, u) = (over[no - 1], under[nu - 1]);
            let by = size - cutoff[u];
            cutoff[o] -= by;
            sym[u] = o;
            off[u] = cutoff[o];
            nu -= 1;
            if cutoff[o] < size {
                no -= 1;
                under[nu] = o;
                nu += 1;
            } else if cutoff[o] == size {
                no -= 1;
            }
        }
        i += 1;
    }
    let a = vrange(0, (N << lbs) - 1);
    let (b, p) = (a >> lbs, (a & ((1 << lbs) - 1)) as u16);
    let want = if p < cutoff[b] || cutoff[b] == size { (b, p as usize) } else { (sym[b], (off[b] + p - cutoff[b]) as usize) };
    let (s, o, _) = lookup(t, lbs, a);
    assert!((s, o) == want, "alias table of the format");
}

// kind: bounded(tables of 2 buckets of 16 slots, every distribution over them)
harness!(c04t_alias, unwind = 5, {
    let (dist, n) = any_dist::<2>(4);
    let t = AnsHistogram::build_alias_map(n, 4, &dist);
    alias_bijection(4, &dist, &t);
    alias_order(4, n, &dist, &t);
    std::mem::forget(t);
});

#[cfg(not(kani))]
fn sample_alias<const N: usize>() {
    let lbs = 12 - N.ilog2() as usize;
    // Many shapes: few heavy symbols, near-even, exact bucket sizes.
    let mut w = [0u32; N];
    let live = vrange(2, N);
    for x in w.iter_mut().take(live) {
        *x = match vrange(0, 3) { 0 => 0, 1 => 1 << lbs, 2 => vany::<u8>() as u32, _ => vrange(1, 2 << lbs) as u32 };
    }
    let mut dist = [0u16; N];
    let mut left = 4096u32;
    for i in 0..N {
        let v = if i == live - 1 { left } else { w[i].min(left) };
        dist[i] = v as u16;
        left -= v;
    }
    vassume(dist.iter().all(|&d| d < 4096));
    let mut n = N;
    while n > 1 && dist[n - 1] == 0 {
        n -= 1;
    }
    let t = AnsHistogram::build_alias_map(n, lbs, &dist);
    for _ in 0..64 {
        alias_bijection(lbs, &dist, &t);
        alias_order(lbs, n, &dist, &t);
    }
}
// kind: sampled(full-size alias tables of 32, 64, 128 and 256 buckets)
sampled!(c04_alias_sampled, {
    match vrange(0, 3) {
        0 => sample_alias::<32>(),
        1 => sample_alias::<64>(),
        2 => sample_alias::<128>(),
        _ => sample_alias::<256>(),
    }
});

// kind: proof
tape_harness!(c04_step, unwind = 8, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    vassume(s.left >= 16);
    let mut br = reader(&s, &buf);
    let lbs = 7;
    let mut buckets = Vec::with_capacity(32);
    let i = vrange(0, 31);
    let b = Bucket { alias_symbol: vany(), alias_cutoff: vany(), dist: vany(), alias_offset: vany(), alias_dist_xor: vany() };
    for _ in 0..4 {
        for _ in 0..4 {
            buckets.push(b);
            buckets.push(b);
        }
    }
    buckets[i] = b;
    let h = AnsHistogram { buckets, log_bucket_size: lbs, bucket_mask: (1 << lbs) - 1, single_symbol: None };
    let mut state: u32 = vany();
    vassume((state & 0xfff) as usize >> lbs == i);
    let (sym, off, d) = lookup(&h.buckets, lbs, (state & 0xfff) as usize);
    vassume(d <= 4096 && off < d);
    let next = (state >> 12) as u64 * d as u64 + off as u64;
    let got = h.read(&mut br, &mut state);
    assert!(got as usize == sym, "symbol of the slot");
    if next < 1 << 16 {
        assert!(state as u64 == next << 16 | s.read(16), "renormalised with the next 16 bits");
    } else {
        assert!(state as u64 == next, "state update");
    }
    assert!(br.total_bits_read() == s.pos, "bits");
    vcover!(s.pos == 16, "renormalisation");
    std::mem::forget(h);
});

// kind: proof
tape_harness!(c04_state, unwind = 8, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let r = vok(AnsReader::init(&mut br));
    let w = s.read(32) as u32;
    match r {
        None => assert!(s.short, "32 bits are there"),
        Some(a) => {
            assert!(!s.short && a.0 == w && br.total_bits_read() == 32, "initial state");
            assert!(a.checkpoint().0 == w, "checkpoint keeps the state");
            assert!(vok(a.check_final_state()).is_some() == (w == 0x130000), "a stream is valid only in the final state 0x130000");
        }
    }
    assert!(vok(AnsReader::new_unused().check_final_state()).is_some(), "an unused reader is in the final state");
});
