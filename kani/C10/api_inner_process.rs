// C10: the small read-ahead buffer.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};

/// Any buffer of N bytes: any populated range.
fn any_buffer<const N: usize>() -> (SmallBuffer, [u8; N], usize, usize) {
    let data: [u8; N] = vany();
    let (s, e) = (vrange(0, N), vrange(0, N));
    vassume(s <= e);
    let consumed = vrange(0, 1 << 40) as u64;
    (SmallBuffer { buf: Vec::from(data), range: s..e, consumed, bit_offset: 0 }, data, s, e)
}

// kind: bounded(buffers of 8 bytes, up to 2 reads)
harness!(c10_refill, unwind = 10, {
    let (mut b, data, s, e) = any_buffer::<8>();
    let before = b.consumed;
    let fresh: [u8; 8] = vany();
    let sizes: [usize; 2] = [vrange(0, 8), vrange(0, 8)];
    let (mut calls, mut given) = (0, 0);
    let r = b.refill(|bufs| {
        assert!(bufs.len() == 1 && !bufs[0].is_empty(), "there is room");
        let n = if calls < 2 { sizes[calls].min(bufs[0].len()) } else { 0 };
        calls += 1;
        let mut i = 0;
        while i < n && given < 8 {
            bufs[0][i] = fresh[given];
            i += 1;
            given += 1;
        }
        Ok(i)
    });
    let n = vok(r).unwrap();
    assert!(n == given, "bytes that were read");
    assert!(b.consumed == before && b.len() == e - s + n, "nothing is consumed");
    assert!(b.len() >= 4 || calls > 2 || (calls > 0 && (sizes[calls - 1] == 0 || given == 8)), "reads on until half full or out of input");
    let i = vrange(0, 15);
    if i < b.len() {
        assert!(b[i] == if i < e - s { data[s + i] } else { fresh[i - (e - s)] }, "contents");
    }
    std::mem::forget(b);
});

// kind: bounded(buffers of 8 bytes, two requests of up to 4)
harness!(c10_take, unwind = 10, {
    let (mut b, data, s, e) = any_buffer::<8>();
    let before = b.consumed;
    let (mut x, mut y) = ([0u8; 4], [0u8; 4]);
    let (k, l) = (vrange(0, 4), vrange(0, 4));
    let n = b.take(&mut [IoSliceMut::new(&mut x[..k]), IoSliceMut::new(&mut y[..l])]);
    assert!(n == (k + l).min(e - s), "as much as there is");
    assert!(b.range == (s + n..e) && b.consumed == before + n as u64, "consumed");
    let i = vrange(0, 7);
    if i < n {
        assert!(data[s + i] == if i < k { x[i] } else { y[i - k] }, "bytes");
    }
    std::mem::forget(b);
});

// kind: bounded(buffers of 8 bytes)
harness!(c10_with_br, unwind = 10, {
    let (mut b, _, s, e) = any_buffer::<8>();
    let off = vrange(0, 7) as u8;
    b.bit_offset = off;
    let before = b.consumed;
    let used = vrange(0, 64);
    vassume(off as usize + used <= 8 * (e - s) && (off == 0 || e > s));
    let ok: bool = vany();
    let r = b.with_br(|_br, bits| {
        assert!(*bits == off as usize, "starts at the bit offset");
        *bits += used;
        if ok { Ok(5u8) } else { Err(crate::error::Error::OutOfBounds(1)) }
    });
    assert!(vok(r) == if ok { Some(5) } else { None }, "result");
    let t = off as usize + used;
    assert!(b.bit_offset as usize == t % 8 && b.range == (s + t / 8..e) && b.consumed == before + t as u64 / 8, "position");
    std::mem::forget(b);
});

// kind: sampled(buffers of up to 4096 bytes, histories of 60 operations)
sampled!(c10_buffer_sampled, {
    let size = [2, 8, 128, 4096][vrange(0, 3)];
    let mut b = SmallBuffer::new(size);
    let stream: Vec<u8> = (0..20000).map(|i| (i * 31 + i / 251) as u8).collect();
    let (mut read, mut used) = (0, 0);
    let mut extra = 0;
    for _ in 0..60 {
        match vrange(0, 5) {
            0 | 1 => {
                let chunk = [0, 1, 50, 5000][vrange(0, 3)];
                let from = read;
                let n = b.refill(|bufs| {
                    let n = bufs[0].len().min(chunk).min(stream.len() - read);
                    bufs[0][..n].copy_from_slice(&stream[read..read + n]);
                    read += n;
                    Ok(n)
                }).unwrap();
                assert!(n == read - from, "bytes that were read");
            }
            2 => {
                let (mut x, mut y) = (vec![0; vrange(0, 100)], vec![0; vrange(0, 100)]);
                let n = b.take(&mut [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)]);
                assert!(n == (x.len() + y.len()).min(read - used), "as much as there is");
                assert!([x, y].concat()[..n] == stream[used..used + n], "bytes");
                used += n;
            }
            3 => {
                let n = vrange(0, read - used);
                b.consume(n);
                used += n;
            }
            4 => {
                let k = vrange(0, 1000);
                b.mark_consumed(k as u64);
                extra += k;
            }
            _ => if b.buf.len() < 100000 && vrange(0, 9) == 0 { b.enlarge() },
        }
        assert!(b[..] == stream[used..read] && b.consumed() == (used + extra) as u64, "contents");
        let more = b.can_read_more();
        let got = { let mut c = 0; b.refill(|_| { c += 1; Ok(0) }).unwrap(); c };
        assert!(!more || got > 0, "room means that refilling reads");
    }
});
