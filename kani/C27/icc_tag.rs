// C27: tag lists and commands of an ICC profile.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};

#[cfg(not(kani))]
pub(crate) mod icc_ref {
    //! The format's ICC decoding, on mathematical integers and growing output.
    use crate::verif::{vany, vrange};
    pub fn varint(c: &[u8], p: &mut usize) -> Option<u64> {
        let mut v = 0;
        for i in 0..9 {
            let b = *c.get(*p)?;
            *p += 1;
            v |= ((b & 127) as u64) << (7 * i);
            if b < 128 {
                break;
            }
        }
        Some(v)
    }
    pub fn take<'a>(d: &'a [u8], p: &mut usize, n: u64) -> Option<&'a [u8]> {
        let r = d.get(*p..)?.get(..usize::try_from(n).ok()?)?;
        *p += n as usize;
        Some(r)
    }
    pub fn shuffle(b: &[u8], width: usize) -> Vec<u8> {
        // Byte j of the output lies in row j / width and column j % width of a table whose columns are stored one
        // after the other, the last row possibly short.
        let mut out = vec![0; b.len()];
        let (mut s, mut j) = (0, 0);
        for x in b {
            out[j] = *x;
            j += width;
            if j >= b.len() {
                s += 1;
                j = s;
            }
        }
        out
    }
    const TAGS: [&[u8; 4]; 17] = [b"cprt", b"wtpt", b"bkpt", b"rXYZ", b"gXYZ", b"bXYZ", b"kXYZ", b"rTRC", b"gTRC", b"bTRC", b"kTRC", b"chad", b"desc", b"chrm", b"dmnd", b"dmdd", b"lumi"];
    const TYPES: [&[u8; 4]; 8] = [b"XYZ ", b"desc", b"text", b"mluc", b"para", b"curv", b"sf32", b"gbd "];
    /// Appends the tag list; false in the pair when the commands ended first.
    pub fn tags(c: &[u8], cp: &mut usize, d: &[u8], dp: &mut usize, out: &mut Vec<u8>, n: u64, size: u64) -> Option<()> {
        let (mut start, mut len) = (128 + 12 * n, 0u64);
        while *cp < c.len() {
            let cmd = c[*cp];
            *cp += 1;
            let code = cmd & 63;
            if code == 0 {
                break;
            }
            let tag: [u8; 4] = match code {
                1 => take(d, dp, 4)?.try_into().unwrap(),
                2 => *b"rTRC",
                3 => *b"rXYZ",
                4..=20 => *TAGS[code as usize - 4],
                _ => return None,
            };
            start = if cmd & 64 != 0 { varint(c, cp)? } else { start + len };
            if cmd & 128 != 0 {
                len = varint(c, cp)?;
            } else if [b"rXYZ", b"gXYZ", b"bXYZ", b"kXYZ", b"wtpt", b"bkpt", b"lumi"].contains(&&tag) {
                len = 20;
            }
            if start >> 32 != 0 || len >> 32 != 0 || start + len > size {
                return None;
            }
            let mut put = |t: &[u8; 4], s: u64| {
                out.extend_from_slice(t);
                out.extend_from_slice(&(s as u32).to_be_bytes());
                out.extend_from_slice(&(len as u32).to_be_bytes());
            };
            put(&tag, start);
            if code == 2 {
                put(b"gTRC", start);
                put(b"bTRC", start);
            } else if code == 3 {
                put(b"gXYZ", start + len);
                put(b"bXYZ", start + 2 * len);
            }
            if out.len() as u64 > size {
                return None;
            }
        }
        Some(())
    }
    pub fn command(c: &[u8], cp: &mut usize, d: &[u8], dp: &mut usize, out: &mut Vec<u8>) -> Option<()> {
        let cmd = *c.get(*cp)?;
        *cp += 1;
        match cmd {
            1 => {
                let n = varint(c, cp)?;
                out.extend_from_slice(take(d, dp, n)?);
            }
            2 | 3 => {
                let n = varint(c, cp)?;
                out.extend(shuffle(take(d, dp, n)?, if cmd == 2 { 2 } else { 4 }));
            }
            4 => {
                let f = *c.get(*cp)?;
                *cp += 1;
                let (width, order) = ((f & 3) as usize + 1, f >> 2 & 3);
                if width == 3 || order == 3 {
                    return None;
                }
                let stride = if f & 16 != 0 { varint(c, cp)? } else { width as u64 };
                if stride < width as u64 || stride as u128 * 4 >= out.len() as u128 {
                    return None;
                }
                let stride = stride as usize;
                let n = varint(c, cp)?;
                let v = shuffle(take(d, dp, n)?, width);
                // Every value is predicted from the values one, two and three strides earlier in the output.
                for i in (0..v.len()).step_by(width) {
                    let at = |k: usize| {
                        let p = out.len() - stride * k;
                        out[p..p + width].iter().fold(0i64, |a, b| a << 8 | *b as i64)
                    };
                    let p = match order {
                        0 => at(1),
                        1 => 2 * at(1) - at(2),
                        _ => 3 * at(1) - 3 * at(2) + at(3),
                    };
                    for j in 0..width.min(v.len() - i) {
                        let x = (p >> (8 * (width - 1 - j))) as u8;
                        out.push(v[i + j].wrapping_add(x));
                    }
                }
            }
            10 => {
                out.extend_from_slice(b"XYZ \0\0\0\0");
                out.extend_from_slice(take(d, dp, 12)?);
            }
            16..=23 => {
                out.extend_from_slice(TYPES[cmd as usize - 16]);
                out.extend_from_slice(&[0; 4]);
            }
            _ => return None,
        }
        Some(())
    }
    pub fn put_varint(c: &mut Vec<u8>, mut v: u64) {
        // Sometimes longer than needed.
        let pad = if vrange(0, 20) == 0 { vrange(0, 2) } else { 0 };
        while v >= 128 {
            c.push(v as u8 | 128);
            v >>= 7;
        }
        if pad > 0 && v < 128 {
            c.push(v as u8 | 128);
            for _ in 1..pad {
                c.push(128);
            }
            c.push(0);
        } else {
            c.push(v as u8);
        }
    }
    pub fn bytes(d: &mut Vec<u8>, n: usize) {
        for _ in 0..n {
            d.push(vany());
        }
    }
    fn big(r: usize) -> u64 {
        match r {
            0 => vany(),
            1 => (vany::<u32>()) as u64,
            _ => (1 << 32) + vrange(0, 100) as u64,
        }
    }
    pub fn gen_tags(c: &mut Vec<u8>, d: &mut Vec<u8>, size: u64) {
        for _ in 0..vrange(0, 5) {
            let code = if vrange(0, 9) > 0 { vrange(1, 20) } else { vrange(0, 63) } as u8;
            let f = vany::<u8>() & 192;
            c.push(code | f);
            if code == 1 {
                if vany() { bytes(d, 4) } else { d.extend_from_slice(TAGS[vrange(0, 16)]) }
            }
            if f & 64 != 0 {
                put_varint(c, if vrange(0, 19) == 0 { big(vrange(0, 2)) } else { vrange(0, size as usize / 2) as u64 });
            }
            if f & 128 != 0 {
                put_varint(c, if vrange(0, 19) == 0 { big(vrange(0, 2)) } else { vrange(0, size as usize / 3) as u64 });
            }
        }
        if vrange(0, 5) > 0 {
            c.push(vany::<u8>() & 192);
        }
    }
    pub fn gen_command(c: &mut Vec<u8>, d: &mut Vec<u8>, have: usize) {
        let k = [1, 2, 3, 4, 4, 4, 4, 10, 16 + vrange(0, 7), vrange(0, 40)][vrange(0, 9)] as u8;
        c.push(k);
        let mut n = vrange(0, 40);
        if k == 4 {
            let f = if vrange(0, 9) == 0 { vany() } else { [0u8, 1, 3][vrange(0, 2)] | (vrange(0, 2) as u8) << 2 | (vany::<u8>() & 16) | [0, 0, 224][vrange(0, 2)] };
            c.push(f);
            if f & 16 != 0 {
                let s = match vrange(0, 9) {
                    0 => vany(),
                    1 => vrange(0, have / 4 + 2) as u64,
                    2 => (have as u64 / 4).saturating_sub(vrange(0, 1) as u64),
                    _ => vrange(1, 12) as u64,
                };
                put_varint(c, s);
            }
        }
        if k >= 1 && k <= 4 {
            let long = vrange(0, 30) == 0;
            put_varint(c, if long { vany() } else { n as u64 });
        } else {
            n = if k == 10 { 12 } else { 0 };
        }
        bytes(d, n);
    }
}

// kind: sampled(streams of up to 5 commands after up to 200 bytes of output)
sampled!(c27_commands_sampled, {
    use icc_ref::*;
    let (mut c, mut d, mut out) = (vec![], vec![], vec![]);
    let before = [vrange(0, 20), 128, 132, 200][vrange(0, 3)];
    bytes(&mut out, before);
    for _ in 0..vrange(1, 5) {
        gen_command(&mut c, &mut d, before);
    }
    if vrange(0, 20) == 0 {
        c.truncate(vrange(0, c.len()));
    }
    if vrange(0, 20) == 0 {
        d.truncate(vrange(0, d.len()));
    }
    let (mut cp, mut dp) = (0, 0);
    let mut buf = vec![0u8; before + 220];
    buf[..before].copy_from_slice(&out);
    let room = buf.len();
    let mut w = Cursor::new(&mut buf[..]);
    w.set_position(before as u64);
    let (mut s, mut cs) = (IccStream::new(d.clone()), Cursor::new(c.clone()));
    while cp < c.len() {
        let want = command(&c, &mut cp, &d, &mut dp, &mut out);
        let k = cs.read_u8().unwrap();
        let got = read_single_command(&mut s, &mut cs, &mut w, k);
        assert!(got.is_ok() == (want.is_some() && out.len() <= room), "commands accepted");
        if got.is_err() {
            return;
        }
        assert!(w.position() as usize == out.len() && w.get_ref()[..out.len()] == out[..], "output of a command");
        assert!(s.bytes_read() as usize == dp && cs.position() as usize == cp, "bytes consumed");
    }
});

// kind: sampled(up to 5 entries, offsets of up to 64 bits)
sampled!(c27_tags_sampled, {
    use icc_ref::*;
    let (mut c, mut d, mut out) = (vec![], vec![], vec![]);
    let size = [vrange(128, 300), 1000, 1 << 28, vrange(128, 4000)][vrange(0, 3)] as u64;
    let n = vrange(0, ((size - 128) / 12).min(9) as usize);
    gen_tags(&mut c, &mut d, size);
    if vrange(0, 20) == 0 {
        c.truncate(vrange(0, c.len()));
    }
    if vrange(0, 20) == 0 {
        d.truncate(vrange(0, d.len()));
    }
    let (mut cp, mut dp) = (0, 0);
    bytes(&mut out, 128);
    let mut buf = vec![0u8; size.min(4000) as usize];
    buf[..128].copy_from_slice(&out);
    let mut w = Cursor::new(&mut buf[..]);
    w.set_position(128);
    let (mut s, mut cs) = (IccStream::new(d.clone()), Cursor::new(c.clone()));
    let want = tags(&c, &mut cp, &d, &mut dp, &mut out, n as u64, size);
    let got = read_tag_list(&mut s, &mut cs, &mut w, n as u32, size);
    assert!(got.is_ok() == want.is_some(), "tag lists accepted");
    if got.is_ok() {
        assert!(w.position() as usize == out.len() && w.get_ref()[..out.len()] == out[..], "the tag list");
        assert!(s.bytes_read() as usize == dp && cs.position() as usize == cp, "bytes consumed");
    }
});

// kind: sampled(up to 300 bytes)
sampled!(c27_shuffle_sampled, {
    let mut b = vec![];
    icc_ref::bytes(&mut b, [vrange(0, 40), vrange(0, 300)][vrange(0, 1)]);
    assert!(shuffle_w2(&b).unwrap() == icc_ref::shuffle(&b, 2), "interleaving by 2");
    assert!(shuffle_w4(&b).unwrap() == icc_ref::shuffle(&b, 4), "interleaving by 4");
});

fn shuffled<const N: usize>() {
    let b: [u8; N] = vany();
    let (w2, w4) = (shuffle_w2(&b).unwrap(), shuffle_w4(&b).unwrap());
    assert!(w2.len() == N && w4.len() == N, "a permutation has the same length");
    for (w, width) in [(&w2, 2usize), (&w4, 4)] {
        // A table of `width` columns, stored column by column, its last row possibly short, is put out row by row.
        let (mut s, mut j) = (0, 0);
        for i in 0..N {
            assert!(w[j] == b[i], "interleaved bytes");
            j += width;
            if j >= N {
                s += 1;
                j = s;
            }
        }
    }
    std::mem::forget((w2, w4));
}
// kind: bounded(lengths 0 to 9)
harness!(c27_shuffles, unwind = 12, {
    match vrange(0, 9) {
        0 => shuffled::<0>(),
        1 => shuffled::<1>(),
        2 => shuffled::<2>(),
        3 => shuffled::<3>(),
        4 => shuffled::<4>(),
        5 => shuffled::<5>(),
        6 => shuffled::<6>(),
        7 => shuffled::<7>(),
        8 => shuffled::<8>(),
        _ => shuffled::<9>(),
    }
});
