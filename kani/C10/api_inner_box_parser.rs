// C10: container boxes.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};

/// A random container around `stream`: its bytes, the codestream pieces in file order as (index, file offset, length), and
/// whether the last piece runs to the end of the file.
#[cfg(not(kani))]
fn container(stream: &[u8], in_order: bool) -> (Vec<u8>, Vec<(usize, usize, usize)>, bool) {
    let mut f = vec![0, 0, 0, 0xc, b'J', b'X', b'L', b' ', 0xd, 0xa, 0x87, 0xa];
    let header = |f: &mut Vec<u8>, ty: &[u8; 4], len: usize, to_end: bool| {
        if to_end {
            f.extend([0; 4]);
            f.extend(ty);
        } else if vrange(0, 4) == 0 {
            f.extend([0, 0, 0, 1]);
            f.extend(ty);
            f.extend((len as u64 + 16).to_be_bytes());
        } else {
            f.extend((len as u32 + 8).to_be_bytes());
            f.extend(ty);
        }
    };
    let junk = |f: &mut Vec<u8>| {
        let n = [0, 0, 1, 7, 50, 130, 1500, 3000][vrange(0, 7)];
        header(f, [b"Exif", b"jumb", b"jxli", b"brob", b"\0\0\0\0"][vrange(0, 4)], n, false);
        f.extend((0..n).map(|i| i as u8));
    };
    let version = if in_order { vrange(0, 1) } else { 1 };
    let extra = [0, 0, 4, 200][vrange(0, 3)];
    header(&mut f, b"ftyp", 8 + extra, false);
    f.extend(b"jxl ");
    f.extend((version as u32).to_be_bytes());
    f.extend(vec![b'j'; extra]);
    let mut pieces = vec![];
    let mut to_end = false;
    if in_order && vrange(0, 3) == 0 {
        for _ in 0..vrange(0, 2) {
            junk(&mut f);
        }
        to_end = vrange(0, 2) == 0;
        header(&mut f, b"jxlc", stream.len(), to_end);
        pieces.push((0, f.len(), stream.len()));
        f.extend(stream);
    } else {
        let k = vrange(1, 6);
        let mut cuts: Vec<usize> = (1..k).map(|_| if vrange(0, 3) == 0 { stream.len().min(20) } else { vrange(0, stream.len()) }).collect();
        cuts.extend([0, stream.len()]);
        cuts.sort();
        let mut order: Vec<usize> = (0..k).collect();
        if !in_order {
            for i in 0..k {
                let j = vrange(i, k - 1);
                order.swap(i, j);
            }
        }
        for (at, i) in order.iter().enumerate() {
            if vrange(0, 3) == 0 {
                junk(&mut f);
            }
            let len = cuts[i + 1] - cuts[*i];
            to_end = at == k - 1 && *i == at && vrange(0, 3) == 0;
            header(&mut f, b"jxlp", 4 + len, to_end);
            f.extend((*i as u32 | if *i == k - 1 { 1 << 31 } else { 0 }).to_be_bytes());
            pieces.push((*i, f.len(), len));
            f.extend(&stream[cuts[*i]..cuts[i + 1]]);
        }
    }
    if !to_end {
        for _ in 0..vrange(0, 2) {
            junk(&mut f);
        }
    }
    (f, pieces, to_end)
}

/// An input of which `have` bytes have arrived, skipping at most `most` bytes at a time.
#[cfg(not(kani))]
struct Slow<'a> {
    data: &'a [u8],
    pos: usize,
    have: usize,
    most: usize,
    estimate: usize,
    default_skip: bool,
}
#[cfg(not(kani))]
struct DefaultSkip<'a, 'b>(&'a mut Slow<'b>);
#[cfg(not(kani))]
impl JxlBitstreamInput for DefaultSkip<'_, '_> {
    fn available_bytes(&mut self) -> std::result::Result<usize, std::io::Error> {
        self.0.available_bytes()
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> std::result::Result<usize, std::io::Error> {
        self.0.read(bufs)
    }
}
#[cfg(not(kani))]
impl JxlBitstreamInput for Slow<'_> {
    fn available_bytes(&mut self) -> std::result::Result<usize, std::io::Error> {
        Ok((self.have - self.pos) * self.estimate / 2)
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> std::result::Result<usize, std::io::Error> {
        let mut src = &self.data[self.pos..self.have];
        let n = Read::read_vectored(&mut src, bufs)?;
        self.pos += n;
        Ok(n)
    }
    fn skip(&mut self, bytes: usize) -> std::result::Result<usize, std::io::Error> {
        if self.default_skip {
            return DefaultSkip(self).skip(bytes);
        }
        let n = bytes.min(self.have - self.pos).min(self.most);
        self.pos += n;
        Ok(n)
    }
}

/// Reads the rest of the codestream with random requests; returns None where bytes were skipped over.
#[cfg(not(kani))]
fn read_on(p: &mut BoxParser, inp: &mut Slow, got: &mut Vec<Option<u8>>, upto: usize) {
    let mut idle = 0;
    while got.len() < upto {
        let want = [1, 3, 64, 500, 5000][vrange(0, 4)].min(upto - got.len());
        let mut c = CodestreamInput::new(p, inp);
        let r = match vrange(0, 5) {
            0 => c.available_bytes().map(|_| 0),
            1 => c.skip(want).map(|n| {
                assert!(n <= want, "never more than asked");
                got.extend(std::iter::repeat_n(None, n));
                n
            }),
            _ => {
                let (mut a, mut b) = (vec![0; want / 3], vec![0; want - want / 3]);
                c.read(&mut [IoSliceMut::new(&mut a), IoSliceMut::new(&mut b)]).map(|n| {
                    a.extend(b);
                    assert!(n <= want, "never more than asked");
                    got.extend(a[..n].iter().map(|x| Some(*x)));
                    n
                })
            }
        };
        match r {
            Ok(0) | Err(Error::OutOfBounds(_)) => {
                if inp.have < inp.data.len() {
                    inp.have = (inp.have + [1, 5, 100, 4000][vrange(0, 3)]).min(inp.data.len());
                } else {
                    idle += 1;
                }
                if idle > 30 {
                    return;
                }
            }
            Ok(_) => idle = 0,
            Err(e) => panic!("valid container rejected: {e}"),
        }
    }
}

#[cfg(not(kani))]
fn check_container(in_order: bool) {
    let n = [0, 1, 17, 100, 300, 2000, 9000][vrange(0, 6)];
    let stream: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256 * 3) as u8).collect();
    let (file, pieces, to_end) = container(&stream, in_order);
    let mut p = BoxParser::new();
    let mut inp = Slow { data: &file, pos: 0, have: vrange(0, file.len()), most: [1, 100, usize::MAX][vrange(0, 2)],
        estimate: vrange(0, 4), default_skip: vrange(0, 1) == 0 };
    let mut got = vec![];
    let upto = vrange(0, n);
    read_on(&mut p, &mut inp, &mut got, upto);
    assert!(got.len() == upto, "the codestream is delivered as soon as the file is there");
    let good = |got: &[Option<u8>], from: usize| got.iter().enumerate().all(|(i, x)| x.is_none_or(|x| x == stream[from + i]));
    assert!(good(&got, 0), "codestream bytes");
    // Seeking back to a position in what was read.
    let start = |i: usize| pieces.iter().filter(|q| q.0 < i).map(|q| q.2).sum::<usize>();
    let at = vrange(0, upto);
    let cp = if p.codestream_pos_to_box.is_empty() { Ok(None) } else { p.state_checkpoint(at as u64) };
    if upto > at {
        // the piece that holds the byte
        let q = *pieces.iter().find(|q| start(q.0) <= at && at < start(q.0) + q.2).unwrap();
        let w = pieces.iter().position(|x| *x == q).unwrap();
        let ordered = pieces[..w].iter().all(|x| x.0 < q.0) && pieces.iter().filter(|x| x.0 < q.0).all(|x| pieces[..w].contains(x));
        if ordered {
            assert!(matches!(cp, Ok(Some(c)) if c.file_position == (q.1 + at - start(q.0)) as u64), "checkpoint: file position");
            assert!(p.total_bytes_consumed(at as u64) == (q.1 + at - start(q.0)) as u64, "file position");
        }
    }
    let resume = vrange(0, 1) == 0;
    if let Ok(Some(cp)) = cp && resume {
        p.reset_to_checkpoint(cp);
        let mut inp2 = Slow { data: &file, pos: cp.file_position as usize, have: cp.file_position as usize, ..inp };
        let mut rest = vec![];
        read_on(&mut p, &mut inp2, &mut rest, n - at);
        assert!(rest.len() == n - at && good(&rest, at), "the codestream goes on from the checkpoint");
        inp = inp2;
    } else {
        std::mem::forget(cp);
        read_on(&mut p, &mut inp, &mut got, n);
        assert!(got.len() == n && good(&got, 0), "whole codestream");
        if n > 0 && p.codestream_pos_to_box.len() > 0 && pieces.last().unwrap().2 > 0 {
            let last = pieces.last().unwrap();
            assert!(p.total_bytes_consumed(n as u64) == (last.1 + last.2) as u64, "file position at the end of the codestream");
        }
    }
    // Nothing follows.
    inp.have = file.len();
    for _ in 0..4 {
        let mut b = [0; 9];
        let r = CodestreamInput::new(&mut p, &mut inp).read(&mut [IoSliceMut::new(&mut b)]);
        assert!(matches!(r, Ok(0)), "the end of the codestream is known");
    }
    let _ = to_end;
}
// kind: sampled(containers of up to 6 codestream boxes in order and 9000 codestream bytes, any arrival and request sizes)
sampled!(c10_in_order_sampled, { check_container(true) });
// kind: sampled(containers of up to 6 codestream boxes in any order and 9000 codestream bytes, any arrival and request sizes)
sampled!(c10_out_of_order_sampled, { check_container(false) });
/// The container format, for a complete file: codestream bytes and how they end.
#[cfg(not(kani))]
#[derive(PartialEq, Debug)]
enum End {
    Complete,
    Short,
    Invalid,
    Unspecified,
}
#[cfg(not(kani))]
fn spec(f: &[u8]) -> (Vec<u8>, End) {
    use std::collections::BTreeMap;
    let mut out = vec![];
    let box_sig = [0, 0, 0, 0xc, b'J', b'X', b'L', b' ', 0xd, 0xa, 0x87, 0xa];
    if f.starts_with(&[0xff, 0x0a]) {
        return (f.to_vec(), End::Complete);
    }
    if !f.starts_with(&box_sig) {
        return (out, if box_sig.starts_with(f) || f.len() < 2 { End::Short } else { End::Invalid });
    }
    let mut pos = 12;
    let mut version = None;
    let mut next = 0u32;
    let mut stored: BTreeMap<u32, (bool, Vec<u8>)> = BTreeMap::new();
    loop {
        while let Some((last, data)) = stored.remove(&next).filter(|_| next > 0) {
            out.extend(data);
            next += 1;
            if last {
                return (out, End::Complete);
            }
        }
        let h = &f[pos.min(f.len())..];
        if h.len() < 8 {
            return (out, End::Short);
        }
        let ty: [u8; 4] = h[4..8].try_into().unwrap();
        if (version.is_none()) != (&ty == b"ftyp") && (version.is_none() || &ty != b"ftyp") {
            return (out, End::Invalid);
        }
        let big = h[..4] == [0, 0, 0, 1];
        let own = match &ty { b"jxlp" => 4, b"ftyp" => 8, _ => 0 };
        let head = own + if big { 16 } else { 8 };
        if h.len() < head {
            return (out, End::Short);
        }
        let len = if big { u64::from_be_bytes(h[8..16].try_into().unwrap()) } else { u32::from_be_bytes(h[..4].try_into().unwrap()) as u64 };
        if len != 0 && len < head as u64 {
            return (out, End::Invalid);
        }
        let body = &h[head..];
        let content = if len == 0 { None } else { Some(len - head as u64) };
        let take = content.unwrap_or(u64::MAX).min(body.len() as u64) as usize;
        let short = content.is_some_and(|c| c > body.len() as u64);
        let own = &h[head - own..head];
        match &ty {
            b"ftyp" => {
                if version.is_some() || own[..4] != *b"jxl " || own[4..7] != [0, 0, 0] || own[7] > 1 {
                    return (out, End::Invalid);
                }
                version = Some(own[7]);
            }
            b"jxlc" => {
                if next > 0 {
                    return (out, End::Invalid);
                }
                if !stored.is_empty() {
                    return (out, End::Unspecified);
                }
                out.extend(&body[..take]);
                return (out, if short { End::Short } else { End::Complete });
            }
            b"jxlp" => {
                let i = u32::from_be_bytes(own.try_into().unwrap());
                let (last, i) = (i >> 31 == 1, i & 0x7fff_ffff);
                if i < next {
                    return (out, End::Invalid);
                }
                if i == next {
                    out.extend(&body[..take]);
                    next += 1;
                    if short {
                        return (out, End::Short);
                    }
                    if last || content.is_none() {
                        return (out, End::Complete);
                    }
                } else {
                    if version != Some(1) || stored.contains_key(&i) || content.is_none() {
                        return (out, End::Invalid);
                    }
                    if !short {
                        stored.insert(i, (last, body[..take].to_vec()));
                    }
                }
            }
            _ => {}
        }
        if short || content.is_none() {
            return (out, End::Short);
        }
        pos += head + take;
    }
}
// kind: sampled(corrupted containers: accepted, rejected and read exactly as the format says)
sampled!(c10_corrupt_sampled, {
    let stream: Vec<u8> = (0..[0, 40, 300, 3000][vrange(0, 3)]).map(|i: usize| (i * 7 + i / 256 * 3) as u8).collect();
    let (mut file, _, _) = container(&stream, vrange(0, 1) == 0);
    for _ in 0..vrange(0, 3) {
        let at: Vec<usize> = (0..file.len() - 4).filter(|i| ["jxlp", "jxlc", "ftyp", "jumb", "Exif"].iter().any(|t| file[*i..*i + 4] == *t.as_bytes())).collect();
        let i = if at.is_empty() || vrange(0, 7) == 0 { vrange(0, file.len() - 1) } else { at[vrange(0, at.len() - 1)] };
        match vrange(0, 4) {
            0 => {
                let i = (i + vrange(0, 12)).saturating_sub(4).min(file.len() - 1);
                file[i] = vany();
            }
            1 if i + 8 < file.len() => file[i + 7] = vrange(0, 3) as u8,
            2 if i + 12 < file.len() => {
                let t = [b"jxlp", b"jxlc", b"ftyp", b"jumb"][vrange(0, 3)];
                file[i..i + 4].copy_from_slice(t);
            }
            3 if i >= 4 => file[i - 1] = vrange(0, 30) as u8,
            _ if i + 8 < file.len() => file[i + 4] ^= 0x80,
            _ => {}
        }
    }
    if vrange(0, 3) == 0 {
        file.truncate(vrange(0, file.len()));
    }
    let mut p = BoxParser::new();
    let mut inp = Slow { data: &file, pos: 0, have: 0, most: usize::MAX, estimate: vrange(0, 4), default_skip: vrange(0, 1) == 0 };
    let mut got: Vec<u8> = vec![];
    let mut idle = 0;
    let end = loop {
        let mut b = vec![0; vrange(1, 3000)];
        match CodestreamInput::new(&mut p, &mut inp).read(&mut [IoSliceMut::new(&mut b)]) {
            Ok(0) | Err(Error::OutOfBounds(_)) if inp.have < file.len() => inp.have = (inp.have + vrange(1, 2000)).min(file.len()),
            Ok(0) | Err(Error::OutOfBounds(_)) if idle < 3 => idle += 1,
            Ok(0) => break if matches!(p.state, ParseState::Complete | ParseState::Codestream(None)) { End::Complete } else { End::Short },
            Err(Error::OutOfBounds(_)) => break End::Short,
            Err(_) => break End::Invalid,
            Ok(k) => {
                got.extend(&b[..k]);
                idle = 0;
            }
        }
    };
    let (w, e) = spec(&file);
    if e != End::Unspecified {
        assert!(got == w, "codestream bytes");
        assert!(end == e, "accepted, incomplete or invalid {end:?} {e:?} {:?} {:?}", p.state, &file[..200.min(file.len())]);
    }
});
