// C07: context maps and the layout of an entropy-code header.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};

// kind: bounded(lists of 16 entries, every index)
harness!(c07_move_to_front, unwind = 18, {
    let v: [u8; 16] = vany();
    let mut w = v;
    let k = vrange(0, 15);
    move_to_front(&mut w, k as u8);
    let j = vrange(0, 15);
    assert!(w[j] == if j == 0 { v[k] } else if j <= k { v[j - 1] } else { v[j] }, "entry moved, the ones before it shifted");
});

/// Naive inverse move-to-front.
fn mtf_spec(v: &mut [u8]) {
    let mut list = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        list[i] = i as u8;
        i += 1;
    }
    for x in v.iter_mut() {
        let k = *x as usize;
        let val = list[k];
        let mut j = k;
        while j > 0 {
            list[j] = list[j - 1];
            j -= 1;
        }
        list[0] = val;
        *x = val;
    }
}

// kind: sampled(lists of up to 40 indices, all values)
sampled!(c07_mtf_sampled, {
    let n = vrange(0, 40);
    let mut v: Vec<u8> = (0..n).map(|_| vany()).collect();
    let mut w = v.clone();
    inverse_move_to_front(&mut v);
    mtf_spec(&mut w);
    assert!(v == w, "inverse move-to-front");
});

#[cfg(kani)]
pub mod st {
    use super::*;
    pub fn verify(m: &[u8]) -> Result<(), Error> {
        // Contract of verify_context_map: accepted iff every index up to the largest occurs.
        let mut seen = 0u32;
        for x in m {
            seen |= 1 << *x;
        }
        if (seen + 1).is_power_of_two() { Ok(()) } else { Err(Error::OutOfBounds(9)) }
    }
}

// kind: bounded(3 contexts)
tape_harness!(#[kani::stub(verify_context_map, st::verify)] c07t_simple_map, unwind = 6, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    vassume(s.t & 1 == 1);
    let mut br = reader(&s, &buf);
    let n = 3;
    let r = vok(decode_context_map(n, &mut br));
    s.read(1);
    let bits = s.read(2) as usize;
    let mut m = [0u8; 4];
    let mut seen = 0u32;
    let mut i = 0;
    while i < 4 {
        if i < n {
            m[i] = s.read(bits) as u8;
            seen |= 1 << m[i];
        }
        i += 1;
    }
    if s.short || !(seen + 1).is_power_of_two() {
        assert!(r.is_none(), "truncated maps and maps with unused histograms are rejected");
    } else {
        let r = r.unwrap();
        let j = vrange(0, 3);
        assert!(r.len() == n && (j >= n || r[j] == m[j]), "map");
        assert!(br.total_bits_read() == s.pos, "bits");
        std::mem::forget(r);
    }
});

// kind: sampled(maps of up to 300 contexts, simple and entropy coded with prefix codes over up to 12 clusters)
sampled!(c07_map_sampled, {
    use crate::verif::bits::*;
    let n = match vrange(0, 2) { 0 => vrange(1, 4), 1 => vrange(1, 40), _ => vrange(1, 300) };
    let mut w = BitW::default();
    if vrange(0, 2) == 0 {
        w.put(1, 1);
        let b = vrange(0, 3);
        w.put(b as u64, 2);
        for i in 0..n {
            w.put(if vrange(0, 30) == 0 { vany::<u8>() as u64 } else { (i as u64) & ((1 << b) - 1) }, b);
        }
    } else {
        w.put(2 * vrange(0, 1) as u64, 2);
        if vrange(0, 3) == 0 {
            // LZ77: smallest symbol 224, length 3, length configuration with 0 extra bits
            w.put(1, 1);
            w.put(0, 4);
            w.put(8, 4);
            // two contexts: simple map with one cluster
            w.put(1, 3);
        } else {
            w.put(0, 1);
        }
        w.put(1, 1);
        w.put(15, 4);
        let al = if vrange(0, 7) == 0 { vrange(1, 300) } else { vrange(1, 12) };
        w.var(al - 1, 4);
        prefix::write(&mut w, al);
        for _ in 0..2 * n {
            w.put(vany::<u8>() as u64, 8);
        }
    }
    w.noise(2);
    w.mutate();
    let mut br = BitReader::new(&w.data);
    let r = vok(decode_context_map(n, &mut br));
    let mut br2 = BitReader::new(&w.data);
    let want = (|| -> Result<Vec<u8>, Error> {
        let mut m = vec![];
        if br2.read(1)? == 1 {
            let b = br2.read(2)? as usize;
            for _ in 0..n {
                m.push(br2.read(b)? as u8);
            }
        } else {
            let mtf = br2.read(1)? == 1;
            let h = Histograms::decode(1, &mut br2, n > 2)?;
            let mut r = SymbolReader::new(&h, &mut br2, None)?;
            for _ in 0..n {
                let v = r.read_unsigned(&h, &mut br2, 0);
                m.push(u8::try_from(v).map_err(|_| Error::OutOfBounds(1))?);
            }
            r.check_final_state(&h, &mut br2)?;
            if mtf {
                mtf_spec(&mut m);
            }
        }
        let top = *m.iter().max().unwrap();
        if (0..=top).any(|x| !m.contains(&x)) {
            return Err(Error::OutOfBounds(1));
        }
        Ok(m)
    })();
    match want {
        Err(_) => assert!(r.is_none(), "invalid maps are rejected"),
        Ok(m) => {
            assert!(r.as_ref() == Some(&m), "context map");
            assert!(br.total_bits_read() == br2.total_bits_read(), "bits");
        }
    }
});
