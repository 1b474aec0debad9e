// C27: whole ICC profiles and their contexts.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};
#[cfg(not(kani))]
#[allow(dead_code)]
mod entropy {
    include!(concat!(env!("JXL_VERIF_DIR"), "/entropy.rs"));
}

fn alpha(b: u8) -> bool {
    (b >= 65 && b <= 90) || (b >= 97 && b <= 122)
}
fn digit(b: u8) -> bool {
    (b >= 48 && b <= 57) || b == 46 || b == 44
}
/// Context of byte i after bytes b1 (previous) and b2.
fn context(i: usize, b1: u8, b2: u8) -> u32 {
    if i <= 128 {
        return 0;
    }
    let p1 = if alpha(b1) { 0 } else if digit(b1) { 1 } else if b1 <= 1 { 2 + b1 as u32 } else if b1 < 16 { 4 } else if b1 > 240 && b1 < 255 { 5 } else if b1 == 255 { 6 } else { 7 };
    let p2 = if alpha(b2) { 0 } else if digit(b2) { 1 } else if b2 < 16 { 2 } else if b2 > 240 { 3 } else { 4 };
    1 + p1 + 8 * p2
}

#[cfg(kani)]
fn ctx_of(n: usize, b1: u8, b2: u8) -> u32 {
    let mut m = std::mem::ManuallyDrop::new(std::mem::MaybeUninit::<IncrementalIccReader>::uninit());
    let p = m.as_mut_ptr();
    // Only the fields that the context is computed from exist.
    unsafe {
        let mut v = std::mem::ManuallyDrop::new(Vec::<u8>::new());
        std::ptr::addr_of_mut!((*p).out_buf).write(Vec::from_raw_parts(v.as_mut_ptr(), n, n));
        std::ptr::addr_of_mut!((*p).prev_bytes).write([b1, b2]);
        (*p).get_icc_ctx()
    }
}
#[cfg(not(kani))]
fn ctx_of(n: usize, b1: u8, b2: u8) -> u32 {
    let mut w = crate::verif::bits::BitW::default();
    w.put(0, 2);
    entropy::codes(&mut w, ICC_CONTEXTS, 0);
    w.put(0, 64);
    let mut r = IncrementalIccReader::new(&mut BitReader::new(&w.data)).unwrap();
    r.out_buf = vec![0; n];
    r.prev_bytes = [b1, b2];
    r.get_icc_ctx()
}
// kind: proof
harness!(c27_context, {
    let n: usize = vrange(0, 1 << 24);
    let (b1, b2): (u8, u8) = (vany(), vany());
    let r = ctx_of(n, b1, b2);
    assert!(r == context(n, b1, b2) && r < ICC_CONTEXTS as u32, "context of a byte");
});

#[cfg(not(kani))]
mod whole {
    use super::super::tag::icc_tag::icc_ref::*;
    use super::*;
    /// The profile a stream of bytes stands for.
    fn profile(e: &[u8]) -> Option<Vec<u8>> {
        let mut p = 0;
        let size = varint(e, &mut p)?;
        let nc = varint(e, &mut p)?;
        if size > 1 << 28 || size + 65536 < e.len() as u64 {
            return None;
        }
        let c = take(e, &mut p, nc)?;
        let d = &e[p..];
        let (mut cp, mut dp) = (0, 0);
        let mut out = vec![];
        let h = take(d, &mut dp, size.min(128))?;
        for i in 0..h.len() {
            out.push(h[i].wrapping_add(predict(i, size as u32, h)));
        }
        if size > 128 {
            let n = varint(c, &mut cp)?;
            if n > 0 {
                if n - 1 > (size - 128) / 12 {
                    return None;
                }
                out.extend_from_slice(&(n as u32 - 1).to_be_bytes());
                if out.len() as u64 > size {
                    return None;
                }
                tags(c, &mut cp, d, &mut dp, &mut out, n - 1, size)?;
            }
            while cp < c.len() {
                command(c, &mut cp, d, &mut dp, &mut out)?;
                if out.len() as u64 > size {
                    return None;
                }
            }
        }
        if out.len() as u64 != size || dp != d.len() { None } else { Some(out) }
    }
    fn predict(i: usize, size: u32, h: &[u8]) -> u8 {
        // The contract proved for predict_header.
        super::super::header::icc_header::want(i, size, &{
            let mut a = [0u8; 128];
            a[..h.len()].copy_from_slice(h);
            a
        })
    }
    pub fn stream() -> Vec<u8> {
        // Commands first, then the size they really produce.
        let small = vrange(0, 6) == 0;
        let (mut c, mut d) = (vec![], vec![]);
        let hs = if small { vrange(0, 128) } else { 128 };
        bytes(&mut d, hs);
        if vany() && hs > 41 {
            d[40] = b"AMSZ"[vrange(0, 3)];
            d[41] = b"GU\0"[vrange(0, 2)];
        }
        let guess = 400;
        let mut size = hs as u64;
        if !small {
            let n = if vany() { 0 } else { vrange(1, 8) };
            put_varint(&mut c, n as u64);
            if n > 0 {
                gen_tags(&mut c, &mut d, guess);
            }
            for _ in 0..vrange(0, 4) {
                gen_command(&mut c, &mut d, 128);
            }
            // Dry run against a generous size.
            let (mut cp, mut dp) = (0, hs);
            let mut out = vec![0u8; 128];
            if let Some(n) = varint(&c, &mut cp) {
                if n > 0 {
                    out.extend_from_slice(&[0; 4]);
                    let _ = tags(&c, &mut cp, &d, &mut dp, &mut out, n - 1, 10000);
                }
                while cp < c.len() && command(&c, &mut cp, &d, &mut dp, &mut out).is_some() {}
            }
            size = out.len() as u64;
            if n > 0 && size < guess {
                let pad = (guess - size) as usize;
                c.push(1);
                put_varint(&mut c, pad as u64);
                bytes(&mut d, pad);
                size = guess;
            }
        }
        match vrange(0, 20) {
            0 => size = size.wrapping_add(1),
            1 => size = size.saturating_sub(1),
            2 => size = vany(),
            3 => d.push(0),
            _ => {}
        }
        let mut e = vec![];
        put_varint(&mut e, size);
        put_varint(&mut e, c.len() as u64 + if vrange(0, 30) == 0 { vrange(0, 1000) as u64 } else { 0 });
        e.extend_from_slice(&c);
        e.extend_from_slice(&d);
        if vrange(0, 30) == 0 {
            e.truncate(vrange(0, e.len()));
        }
        e
    }
    pub fn inner() {
        let e = stream();
        let want = profile(&e);
        let mut s = IccStream::new(e.clone());
        let got = read_icc_inner(&mut s);
        let got = match got {
            Ok(p) => s.finalize().ok().map(|_| p),
            Err(_) => None,
        };
        assert!(got.is_some() == want.is_some(), "profiles accepted");
        assert!(got == want, "the profile");
    }
    pub fn bytes_of_entropy() {
        let mut w = crate::verif::bits::BitW::default();
        let n = [vrange(0, 12), vrange(120, 200)][vrange(0, 1)];
        if n == 0 { w.put(0, 2) } else if n < 17 { w.put(1, 2); w.put(n as u64 - 1, 4) } else { w.put(2, 2); w.put(n as u64 - 17, 8) }
        entropy::codes(&mut w, ICC_CONTEXTS, [0, 1, 2, 3][vrange(0, 3)]);
        for _ in 0..vrange(0, 300) {
            w.put(vany::<u8>() as u64 & 255, 8);
        }
        let b = w.data.clone();
        let mut br = BitReader::new(&b);
        let Ok(mut r) = IncrementalIccReader::new(&mut br) else { return };
        assert!(r.num_coded_bytes() == n, "coded length");
        let mut br2 = BitReader::new(&b);
        let _ = u64::read_unconditional(&(), &mut br2, &Empty {}).unwrap();
        let h = Histograms::decode(41, &mut br2, true).unwrap();
        let mut s = SymbolReader::new(&h, &mut br2, None).unwrap();
        let mut out: Vec<u8> = vec![];
        for i in 0..n {
            let at = |k: usize| if i >= k { out[i - k] } else { 0 };
            let x = s.read_unsigned(&h, &mut br2, context(i, at(1), at(2)) as usize);
            let short = br2.check_for_error().is_err();
            // Sometimes the bytes run out first: an attempt on a prefix must leave no trace.
            if vrange(0, 9) == 0 {
                let pos = br.total_bits_read();
                let cut = (pos / 8 + vrange(0, 3)).min(b.len());
                if cut * 8 >= pos {
                    let mut t = BitReader::new(&b[..cut]);
                    t.skip_bits(pos).unwrap();
                    let had = r.out_buf.clone();
                    if r.read_one(&mut t).is_ok() {
                        assert!(!short && x < 256 && r.out_buf[i] as u32 == x, "a byte");
                        let used = t.total_bits_read();
                        br.skip_bits(used - pos).unwrap();
                        out.push(x as u8);
                        continue;
                    }
                    if t.check_for_error().is_ok() {
                        assert!(x >= 256 && !short, "only bytes are rejected when nothing is missing");
                        return;
                    }
                    assert!(r.out_buf == had, "nothing is kept of a failed attempt");
                }
            }
            let g = r.read_one(&mut br);
            assert!(g.is_ok() == (!short && x < 256), "bytes accepted");
            if g.is_err() {
                return;
            }
            out.push(x as u8);
            assert!(r.out_buf == out && r.remaining() == n - i - 1, "a byte");
        }
        let ok = s.check_final_state(&h, &mut br2).is_ok();
        let want = if ok { profile(&out) } else { None };
        let got = r.finalize(&mut br).ok();
        assert!(got == want, "the profile");
    }
}
// kind: sampled(profiles of up to 600 bytes, damaged in every part)
sampled!(c27_profile_sampled, { whole::inner() });
// kind: sampled(up to 200 coded bytes, every kind of entropy code, cut at any byte)
sampled!(c27_coded_sampled, { whole::bytes_of_entropy() });
