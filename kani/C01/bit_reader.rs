// C01: contracts of BitReader, proved inductively: from ANY state satisfying the representation
// invariant `inv` (not only states reachable in a few calls), each operation returns what the abstract
// LSB-first bit stream says and re-establishes `inv`. `new` establishes `inv`; hence every history.
#[allow(unused_imports)]
use crate::verif::{harness, vany, vassume, vcover, vrange};

const N: usize = 20; // bytes of backing data; an operation looks at most 8 bytes ahead, the buffer holds at most 8 back.

/// Bit `p` of the LSB-first stream of `d`.
fn bit(d: &[u8; N], p: usize) -> bool {
    (d[p / 8] >> (p % 8)) & 1 == 1
}
fn load64(d: &[u8; N], at: usize) -> u64 {
    u64::from_le_bytes([d[at], d[at + 1], d[at + 2], d[at + 3], d[at + 4], d[at + 5], d[at + 6], d[at + 7]])
}
fn remaining(br: &BitReader) -> usize {
    br.data.len() * 8 + br.bits_in_buf
}
/// Stream position (in bits of `d`) of the reader: `br.data` is always a suffix of `d[..end]`.
fn pos(br: &BitReader, end: usize) -> usize {
    8 * end - remaining(br)
}
/// Representation invariant, relative to the backing bytes `d[..end]`: the buffer holds exactly the bits
/// before `data`; whatever lies above `bits_in_buf` is a prefix of the unread data; every bit is
/// accounted for. Quantified over bits: holds iff it holds for every choice of `j`.
fn inv(br: &BitReader, d: &[u8; N], end: usize, j: usize) -> bool {
    if br.bits_in_buf > 63 || j > 63 || br.data.len() > end || remaining(br) > 8 * end {
        return false;
    }
    let set = (br.bit_buf >> j) & 1 == 1;
    let p = pos(br, end) + j;
    let val = if j < br.bits_in_buf {
        set == bit(d, p)
    } else {
        // a set bit above bits_in_buf must be a true bit of the stream, and inside the next byte
        !set || (j - br.bits_in_buf < 8 && p < 8 * end && bit(d, p))
    };
    let acc = if br.total_bits_read <= br.initial_bits {
        br.initial_bits - br.total_bits_read == remaining(br)
    } else {
        remaining(br) == 0
    };
    let suffix = std::ptr::eq(br.data.as_ptr(), d.as_ptr().wrapping_add(end - br.data.len()));
    val && acc && (br.data.is_empty() || suffix)
}
/// Every state satisfying the invariant over `d[..end]`, for an arbitrary position and history.
fn any_state<'a>(d: &'a [u8; N]) -> (BitReader<'a>, usize) {
    let end = vrange(8, N);
    let start = vrange(8, N);
    vassume(start <= end);
    let b = vrange(0, 63);
    let k = vrange(0, 8); // bits of the next byte already visible above the buffered ones
    vassume(b + k <= 64 && (k == 0 || start < end));
    let low = if b == 0 { 0 } else { load64(d, start - 8) >> (64 - b) };
    let extra = if k == 0 { 0 } else { ((d[start] as u64) & ((1u64 << k) - 1)) << b };
    let rem = 8 * (end - start) + b;
    let initial = vrange(0, 1 << 40);
    let total = vrange(0, 1 << 40);
    vassume((total <= initial && initial - total == rem) || (total > initial && rem == 0));
    (BitReader { data: &d[start..end], bit_buf: low | extra, bits_in_buf: b, total_bits_read: total, initial_bits: initial }, end)
}
fn ok<T>(r: Result<T, Error>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}
/// `after` is `before` advanced by n bits, exactly accounted.
fn advanced(before: &BitReader, after: &BitReader, n: usize) -> bool {
    after.total_bits_read == before.total_bits_read + n
        && after.initial_bits == before.initial_bits
        && remaining(after) == remaining(before) - n
}
/// Bit i of `v` is stream bit p + i for i < n, and 0 above.
fn value_is(v: u64, d: &[u8; N], p: usize, n: usize, i: usize) -> bool {
    let got = (v >> i) & 1 == 1;
    if i < n { got == bit(d, p + i) } else { !got }
}

// kind: proof
harness!(c01_new, unwind = 9, {
    let d: [u8; N] = vany();
    let end = vrange(0, N);
    let mut br = BitReader::new(&d[..end]);
    assert!(inv(&br, &d, end, vrange(0, 63)), "new establishes the invariant");
    assert!(br.total_bits_read() == 0 && pos(&br, end) == 0, "starts at position 0");
    assert!(br.total_bits_available() == 8 * end, "all bits available");
    let e = br.check_for_error();
    assert!(e.is_ok(), "no error at start");
    std::mem::forget(e);
});

// kind: proof
harness!(c01_peek, unwind = 9, {
    let d: [u8; N] = vany();
    let (mut br, end) = any_state(&d);
    let old = br.clone();
    let n = vrange(0, MAX_BITS_PER_CALL);
    let v = br.peek(n);
    let i = vrange(0, 63);
    if n <= remaining(&old) {
        assert!(value_is(v, &d, pos(&old, end), n, i), "peek shows the next n bits");
        assert!(br.bits_in_buf >= n, "peeked bits are buffered");
    } else if i < remaining(&old) {
        assert!(((v >> i) & 1 == 1) == bit(&d, pos(&old, end) + i), "available bits are right");
    }
    assert!(advanced(&old, &br, 0), "peek consumes nothing");
    assert!(inv(&br, &d, end, vrange(0, 63)), "invariant after peek");
    vcover!(n == 56 && old.bits_in_buf == 5 && old.data.len() > 8, "fast refill, unaligned");
    vcover!(n == 20 && old.bits_in_buf == 5 && old.data.len() == 3, "slow refill");
    vcover!(n > remaining(&old), "past the end");
});

// kind: proof
harness!(c01_read, unwind = 9, {
    let d: [u8; N] = vany();
    let (mut br, end) = any_state(&d);
    let old = br.clone();
    let n = vrange(0, MAX_BITS_PER_CALL);
    let r = ok(br.read(n));
    if n <= remaining(&old) {
        assert!(r.is_some(), "enough bits: read succeeds");
        assert!(value_is(r.unwrap_or(0), &d, pos(&old, end), n, vrange(0, 63)), "read returns the next n bits, LSB first");
        assert!(advanced(&old, &br, n), "read advances by exactly n bits");
    } else {
        assert!(r.is_none(), "reading past the end is an error");
        assert!(advanced(&old, &br, 0), "a failed read consumes nothing");
    }
    assert!(inv(&br, &d, end, vrange(0, 63)), "invariant after read");
    vcover!(n > remaining(&old), "short");
    vcover!(n == 56 && n == remaining(&old), "exactly to the end");
});

// kind: proof
harness!(c01_consume, unwind = 9, {
    let d: [u8; N] = vany();
    let (mut br, end) = any_state(&d);
    let old = br.clone();
    let n = vrange(0, 63);
    let r = ok(br.consume(n));
    if n <= old.bits_in_buf {
        assert!(r.is_some() && advanced(&old, &br, n), "consume advances by n");
    } else {
        assert!(r.is_none() && advanced(&old, &br, 0), "consume of unbuffered bits fails and changes nothing");
    }
    assert!(inv(&br, &d, end, vrange(0, 63)), "invariant after consume");
});

// kind: proof
harness!(c01_read_optimistic, unwind = 9, {
    let d: [u8; N] = vany();
    let (mut br, end) = any_state(&d);
    let old = br.clone();
    let n = vrange(0, MAX_BITS_PER_CALL);
    let v = br.read_optimistic(n);
    if n <= remaining(&old) {
        assert!(value_is(v, &d, pos(&old, end), n, vrange(0, 63)), "optimistic read returns the next n bits");
        assert!(advanced(&old, &br, n), "optimistic read advances by n");
    } else {
        assert!(br.total_bits_read() > br.initial_bits, "over-read is recorded");
    }
    assert!(inv(&br, &d, end, vrange(0, 63)), "invariant after optimistic read");
    vcover!(n > remaining(&old), "over-read");
});

// kind: proof
harness!(c01_check_for_error, unwind = 9, {
    let d: [u8; N] = vany();
    let (br, end) = any_state(&d);
    let e = br.check_for_error();
    assert!(e.is_ok() == (br.total_bits_read <= br.initial_bits), "over-read is reported, and nothing else is");
    std::mem::forget(e);
    assert!(br.total_bits_available() == remaining(&br) && br.total_bits_read() == br.total_bits_read, "counters");
});

// kind: proof
harness!(c01_skip_bits, unwind = 9, {
    let d: [u8; N] = vany();
    let (mut br, end) = any_state(&d);
    vassume(br.total_bits_read <= br.initial_bits);
    let old = br.clone();
    let n: usize = vany();
    let r = ok(br.skip_bits(n));
    if n <= remaining(&old) {
        assert!(r.is_some(), "skipping within the data succeeds");
        assert!(advanced(&old, &br, n), "skip advances by exactly n bits");
        assert!(inv(&br, &d, end, vrange(0, 63)), "invariant after skip");
    } else {
        // A failed skip is final: nothing is promised about the reader's contents after it.
        assert!(r.is_none(), "skipping past the end is an error");
        assert!(br.total_bits_read() <= br.initial_bits, "position stays within the data");
    }
    vcover!(n > 70 && n % 8 == 3 && n <= remaining(&old), "long unaligned skip");
    vcover!(n > remaining(&old), "past the end");
});

// kind: proof
harness!(c01_byte_boundary, unwind = 9, {
    let d: [u8; N] = vany();
    let (mut br, end) = any_state(&d);
    vassume(br.total_bits_read <= br.initial_bits);
    let old = br.clone();
    let pad = br.bits_to_next_byte();
    assert!(pad < 8 && (old.total_bits_read + pad) % 8 == 0, "distance to the next byte");
    let r = ok(br.jump_to_byte_boundary());
    if pad <= remaining(&old) {
        assert!(advanced(&old, &br, pad), "advances to the boundary");
        let i = vrange(0, 7);
        if i < pad && bit(&d, pos(&old, end) + i) {
            assert!(r.is_none(), "padding must be zero");
        }
        let mut any = false;
        let mut j = 0;
        while j < 7 {
            if j < pad {
                any |= bit(&d, pos(&old, end) + j);
            }
            j += 1;
        }
        assert!(r.is_some() == !any, "zero padding is accepted");
    } else {
        assert!(r.is_none(), "no padding left");
    }
    assert!(inv(&br, &d, end, vrange(0, 63)), "invariant after jump");
});

// kind: proof
harness!(c01_split_at, unwind = 9, {
    let d: [u8; N] = vany();
    let (mut br, end) = any_state(&d);
    // Byte-aligned position (the general case jumps to the boundary first, see c01_byte_boundary).
    vassume(br.total_bits_read <= br.initial_bits && br.initial_bits % 8 == 0 && br.total_bits_read % 8 == 0);
    let n = vrange(0, N + 8);
    let old = br.clone();
    match br.split_at(n) {
        Ok(sub) => {
            assert!(n * 8 <= remaining(&old), "split only within the data");
            assert!(advanced(&old, &br, n * 8), "parent advanced by n bytes");
            assert!(sub.total_bits_available() == n * 8, "child has exactly n bytes");
            let cend = pos(&old, end) / 8 + n;
            assert!(inv(&sub, &d, cend, vrange(0, 63)), "child is a reader of exactly its n bytes (over-reads are accounted)");
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(n * 8 > remaining(&old), "split fails only past the end");
            return;
        }
    }
    assert!(inv(&br, &d, end, vrange(0, 63)), "invariant of the parent after split");
    vcover!(n == 9 && old.bits_in_buf == 16, "longer than the buffered bits");
    vcover!(n == 2 && old.bits_in_buf == 56, "inside the buffered bits");
});
