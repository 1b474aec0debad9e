// C08: permutations (Lehmer codes).
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};

// kind: proof
harness!(c08_context, unwind = 35, {
    let x = vrange(0, (1 << 31) - 2) as u32;
    let mut b = 0;
    while b < 32 && (1u64 << b) < x as u64 + 1 {
        b += 1;
    }
    assert!(get_context(x) == if b > 7 { 7 } else { b }, "context: number of bits, at most 7");
    let t: u32 = vany();
    let l = value_of_lowest_1_bit(t);
    assert!(if t == 0 { l == 0 } else { l.is_power_of_two() && t & l != 0 && t & (l - 1) == 0 }, "lowest set bit");
});

/// The i-th element picks the code_i-th of the elements not used so far.
fn lehmer_spec<const N: usize>(code: &[u32], items: &[u32; N], n: usize) -> Option<[u32; N]> {
    let mut left = *items;
    let mut out = [0; N];
    let mut i = 0;
    while i < N {
        if i < n {
            let c = if i < code.len() { code[i] as usize } else { 0 };
            if c >= n - i {
                return None;
            }
            out[i] = left[c];
            let mut j = c;
            while j + 1 < n {
                left[j] = left[j + 1];
                j += 1;
            }
        }
        i += 1;
    }
    Some(out)
}

// kind: bounded(4 elements, every code)
harness!(c08_lehmer, unwind = 10, {
    let items: [u32; 4] = vany();
    let code: [u32; 4] = vany();
    let r = vok(decode_lehmer_code(&code, &items));
    match lehmer_spec::<4>(&code, &items, 4) {
        None => assert!(r.is_none(), "out-of-range codes are rejected"),
        Some(w) => {
            let r = r.unwrap();
            let j = vrange(0, 3);
            assert!(r.len() == 4 && r[j] == w[j], "permutation of the code");
            std::mem::forget(r);
        }
    }
});

// kind: bounded(permutations of 3)
harness!(c08_compose, unwind = 6, {
    let (a, b): ([u32; 3], [u32; 3]) = (vany(), vany());
    for i in 0..3 {
        vassume(b[i] < 3);
    }
    let mut p = Permutation(Cow::Owned(Vec::from(a)));
    let q = Permutation(Cow::Owned(Vec::from(b)));
    p.compose(&q);
    let j = vrange(0, 2);
    assert!(p[j] == a[b[j] as usize], "self after other");
    std::mem::forget((p, q));
});

// kind: sampled(permutations of up to 70 elements with skipped prefixes and short codes, valid and invalid)
sampled!(c08_decode_sampled, {
    let size = vrange(1, 70) as u32;
    let skip = vrange(0, size as usize - 1) as u32;
    let end = if vrange(0, 15) == 0 { vrange(0, 80) as u32 } else { vrange(0, (size - skip) as usize) as u32 };
    let code: Vec<u32> = (0..end).map(|i| {
        let room = (size - skip).saturating_sub(i) as usize;
        if room == 0 || vrange(0, 200) == 0 { vany() } else { vrange(0, room - 1) as u32 }
    }).collect();
    let mut asked = vec![];
    let cut = if vrange(0, 7) == 0 { vrange(0, 70) } else { 1000 };
    let r = Permutation::decode_inner(size, skip, end, |ctx| {
        if asked.len() == cut {
            return Err(Error::OutOfBounds(1));
        }
        asked.push(ctx);
        Ok(code[asked.len() - 1])
    });
    // specification
    if end > size - skip || code.iter().zip(skip..).any(|(c, i)| *c >= size - i) || cut < end as usize {
        if cut < end as usize && end <= size - skip && code[..cut].iter().zip(skip..).all(|(c, i)| *c < size - i) {
            assert!(matches!(r, Err(Error::OutOfBounds(n)) if n > 0), "more input is asked for");
        }
        assert!(r.is_err(), "invalid permutations are rejected");
    } else {
        let mut items = [0u32; 70];
        for i in 0..size - skip {
            items[i as usize] = skip + i;
        }
        let w = lehmer_spec::<70>(&code, &items, (size - skip) as usize).unwrap();
        let p = r.expect("valid permutations are accepted");
        assert!(p.len() == size as usize && (0..size).all(|i| p[i as usize] == if i < skip { i } else { w[(i - skip) as usize] }), "permutation");
        for (i, c) in asked.iter().enumerate() {
            let prev = if i == 0 { 0 } else { code[i - 1] };
            assert!(*c == (0..8).find(|b| (1u64 << b) >= prev as u64 + 1).unwrap_or(7).min(7), "context of the previous code");
        }
    }
});

// kind: sampled(Lehmer codes over 71..=3000 elements)
sampled!(c08_long_sampled, {
    let n = vrange(71, 3000);
    let code: Vec<u32> = (0..vrange(1, n)).map(|i| vrange(0, n - i - 1) as u32).collect();
    let items: Vec<u32> = (0..n as u32).map(|x| x * 3 + 1).collect();
    let r = vok(decode_lehmer_code(&code, &items)).expect("valid codes are accepted");
    let mut left = items;
    for i in 0..n {
        let c = code.get(i).copied().unwrap_or(0);
        assert!(r[i] == left.remove(c as usize), "permutation of the code");
    }
});
