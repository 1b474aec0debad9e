// C05: prefix codes.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};
use crate::verif::tape::{any_tape, reader};

fn rev(x: usize, n: usize) -> usize {
    let mut r = 0;
    let mut i = 0;
    while i < 15 {
        if i < n && x >> i & 1 == 1 {
            r |= 1 << (n - 1 - i);
        }
        i += 1;
    }
    r
}

// kind: proof
harness!(c05_next_key, unwind = 17, {
    // Table keys are bit-reversed code words; the next key is the next code word.
    let len = vrange(1, 15);
    let k = vrange(0, (1 << 15) - 1);
    vassume(k < (1 << len) - 1);
    let w = rev(k, len);
    assert!(get_next_key(w as u32, len) as usize == rev(k + 1, len), "next code word");
});

// kind: proof
harness!(c05_next_table_bits, unwind = 17, {
    // The second-level table is the smallest one that holds the codes sharing its root entry: the remaining code
    // words of lengths len.. fill it exactly or it is as deep as codes can be.
    let mut count = [0u16; 16];
    for i in 1..16 {
        count[i] = vany();
        vassume(count[i] <= 1 << i);
    }
    let root = 8;
    let len = vrange(9, 15);
    vassume(count[len] > 0);
    let b = next_table_bit_size(&count, len, root);
    assert!(b >= len - root && b <= 15 - root, "between the current and the longest code");
    // slots left (in units of the deepest level) once every shorter code is placed
    let full = 1u32 << b;
    let mut used = 0u32;
    let mut l = len;
    while l < 16 {
        if l < b + root {
            let w = (count[l] as u32) << (b + root - l);
            used += w;
        }
        l += 1;
    }
    if b + root < 15 {
        assert!(used + count[b + root] as u32 >= full, "the chosen size is filled by its codes");
    }
    assert!(b + root == len || used < full, "no smaller size is filled");
});

// kind: proof
tape_harness!(c05_read, unwind = 5, {
    // The two-level lookup, for an arbitrary table respecting build's shape.
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    vassume(s.left >= 15);
    let mut br = reader(&s, &buf);
    let mut entries = Vec::from([TableEntry { bits: 0, value: 0 }; 256 + 128]);
    let w = s.t as usize & 255;
    let e = TableEntry { bits: vrange(0, 15) as u8, value: vany() };
    entries[w] = e;
    let t;
    let want;
    if e.bits > 8 {
        let sub = (s.t as usize >> 8) & ((1 << (e.bits - 8)) - 1);
        vassume(w + e.value as usize + sub < 384 && w + e.value as usize >= 256);
        let e2 = TableEntry { bits: vrange(0, 7) as u8, value: vany() };
        entries[w + e.value as usize + sub] = e2;
        want = (e2.value as u32, 8 + e2.bits as usize);
        t = Table { entries };
    } else {
        want = (e.value as u32, e.bits as usize);
        t = Table { entries };
    }
    let got = t.read(&mut br);
    assert!(got == want.0, "symbol");
    assert!(br.total_bits_read() == want.1, "bits");
    vcover!(want.1 == 12, "two levels");
    std::mem::forget(t);
});

#[cfg(kani)]
pub mod st {
    use super::*;
    pub static mut CL: [u8; CODE_LENGTHS_CODE] = [0; CODE_LENGTHS_CODE];
    pub static mut CALLED: bool = false;
    pub fn lengths(c: [u8; CODE_LENGTHS_CODE], _al: usize, _br: &mut BitReader) -> Result<Vec<u8>> {
        unsafe {
            CL = c;
            CALLED = true;
        }
        Err(Error::OutOfBounds(77))
    }
}

// kind: proof
tape_harness!(#[kani::stub(Table::decode_huffman_code_lengths, st::lengths)] c05t_code_length_code, unwind = 20, {
    #[cfg(kani)]
    {
        let mut buf = [0u8; 16];
        let mut s = any_tape(&mut buf);
        vassume(s.left == 128);
        let mut br = reader(&s, &buf);
        vassume(s.t & 3 != 1);
        let r = Table::decode(300, &mut br);
        std::mem::forget(r);
        let skip = s.read(2) as usize;
        const ORDER: [usize; 18] = [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15];
        let mut cl = [0u8; 18];
        let mut space = 32i32;
        let mut n = 0;
        let mut i = 0;
        while i < 18 {
            if i >= skip && space > 0 {
                // code: 0:00 1:1110 2:110 3:01 4:10 5:1111, written MSB first
                let w = s.t as u32;
                let (v, b) = match w & 3 {
                    0 => (0u8, 2),
                    1 => (4, 2),
                    2 => (3, 2),
                    _ => if w & 4 == 0 { (2, 3) } else if w & 8 == 0 { (1, 4) } else { (5, 4) },
                };
                s.read(b);
                cl[ORDER[i]] = v;
                if v != 0 {
                    space -= 32 >> v;
                    n += 1;
                }
            }
            i += 1;
        }
        if n != 1 && space != 0 {
            assert!(unsafe { !st::CALLED }, "an incomplete code-length code is rejected");
        } else {
            assert!(unsafe { st::CALLED }, "a complete code-length code is accepted");
            let j = vrange(0, 17);
            assert!(unsafe { st::CL[j] } == cl[j], "code-length code");
            assert!(br.total_bits_read() == s.pos, "bits");
        }
    }
});

#[cfg(not(kani))]
mod full {
    use super::*;
    use crate::verif::bits::*;
    #[allow(unused_imports)]
    use crate::verif::bits::prefix;
    pub fn check_table(t: &Table, lens: &[u8], one: Option<usize>) {
        for _ in 0..16 {
            let probe: [u8; 16] = vany();
            let mut s = BitS::new(&probe);
            let mut br = BitReader::new(&probe);
            for _ in 0..4 {
                let want = one.unwrap_or_else(|| s.canonical(lens));
                assert!(t.read(&mut br) as usize == want, "canonical symbol");
                assert!(br.total_bits_read() == s.pos, "canonical width");
            }
        }
    }
}

// kind: sampled(prefix-code tables over alphabets of 1..=600 symbols with code lengths up to 15, valid and corrupted)
sampled!(c05_decode_sampled, {
    use crate::verif::bits::*;
    #[allow(unused_imports)]
    use crate::verif::bits::prefix;
    let al = match vrange(0, 3) { 0 => vrange(1, 8), 1 => vrange(1, 40), 2 => vrange(1, 300), _ => vrange(1, 600) };
    let mut w = BitW::default();
    prefix::write(&mut w, al);
    w.noise(4);
    w.mutate();
    let mut br = BitReader::new(&w.data);
    let r = vok(Table::decode(al, &mut br));
    let mut s = BitS::new(&w.data);
    match prefix::spec(&mut s, al) {
        None => assert!(r.is_none(), "invalid prefix codes are rejected"),
        Some((lens, one)) => {
            assert!(r.is_some(), "valid prefix codes are accepted");
            assert!(br.total_bits_read() == s.pos, "bits");
            full::check_table(&r.unwrap(), &lens, one);
        }
    }
});

// kind: sampled(complete codes over up to 2000 symbols)
sampled!(c05_build_sampled, {
    use crate::verif::bits::*;
    #[allow(unused_imports)]
    use crate::verif::bits::prefix;
    let n = if vany() { vrange(2, 60) } else { vrange(2, 2000) };
    let lens = any_complete_code(n, vrange(2, n), 15);
    let t = Table { entries: vok(Table::build(TABLE_BITS, &lens)).expect("complete codes are accepted") };
    full::check_table(&t, &lens, None);
});

// kind: sampled(several tables of up to 200 symbols each)
sampled!(c05_codes_sampled, {
    use crate::verif::bits::*;
    #[allow(unused_imports)]
    use crate::verif::bits::prefix;
    let n = vrange(1, 4);
    let mut w = BitW::default();
    let mut als = vec![];
    for _ in 0..n {
        let al = vrange(1, 200);
        w.var(al - 1, 4);
        als.push(al);
    }
    for al in &als {
        prefix::write(&mut w, *al);
    }
    w.noise(4);
    w.mutate();
    let mut br = BitReader::new(&w.data);
    let r = vok(HuffmanCodes::decode(n, &mut br));
    let mut s = BitS::new(&w.data);
    let als: Vec<usize> = (0..n).map(|_| s.var(4) + 1).collect();
    let bad = s.short || als.iter().any(|a| *a >= 1 << 15);
    let tabs = if bad { None } else { als.iter().map(|a| prefix::spec(&mut s, *a)).collect::<Option<Vec<_>>>() };
    match tabs {
        None => assert!(r.is_none(), "invalid prefix codes are rejected"),
        Some(t) => {
            let r = r.expect("valid prefix codes are accepted");
            assert!(br.total_bits_read() == s.pos, "bits");
            for (i, (lens, one)) in t.iter().enumerate() {
                full::check_table(r.table(i), lens, *one);
                assert!(r.single_symbol(i) == one.map(|x| x as u32), "one-symbol codes");
            }
        }
    }
});
