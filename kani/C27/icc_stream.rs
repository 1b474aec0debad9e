// C27: the byte stream of an ICC profile.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};

// kind: proof
harness!(c27_varint, unwind = 12, {
    let b: [u8; 9] = vany();
    let n = vrange(0, 9);
    let mut k = 0;
    let mut failed = false;
    let r = read_varint(|| {
        if k < n {
            k += 1;
            Ok(b[k - 1])
        } else {
            failed = true;
            Err(Error::IccEndOfStream)
        }
    });
    // The first byte without a continuation bit ends the number.
    let mut end = 9;
    let mut v = 0u64;
    for i in 0..9 {
        if end == 9 {
            v |= ((b[i] & 127) as u64) << (7 * i);
            if b[i] < 128 {
                end = i + 1;
            }
        }
    }
    if end > n {
        assert!(r.is_err() && failed, "a truncated number");
    } else {
        assert!(matches!(r, Ok(x) if x == v) && k == end, "the coded number");
    }
    vcover!(end == 9 && r.is_ok(), "nine bytes");
    std::mem::forget(r);
});

// kind: proof
harness!(c27_stream, unwind = 9, {
    let b: [u8; 6] = vany();
    let mut s = IccStream::new(Vec::from(b));
    let skip = vrange(0, 6);
    s.bytes_read = skip as u64;
    assert!(s.len() == 6 && s.bytes_read() == skip as u64 && s.remaining_bytes() == 6 - skip as u64);
    let n = vrange(0, 4);
    let mut out = [0u8; 4];
    let r = s.read_exact(&mut out[..n]);
    assert!(r.is_ok() == (skip + n <= 6), "reads what is there or fails");
    if r.is_ok() {
        let i = vrange(0, 3);
        assert!(out[i] == if i < n { b[skip + i] } else { 0 }, "bytes in order");
        assert!(s.bytes_read() == (skip + n) as u64);
    } else {
        assert!(s.bytes_read() == skip as u64, "nothing consumed");
    }
    let done = s.bytes_read() == 6;
    let f = s.finalize();
    assert!(f.is_ok() == done, "all bytes must be used");
    std::mem::forget((r, f));
});
