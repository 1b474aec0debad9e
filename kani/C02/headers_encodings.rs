// C02: header field codes. Each reader returns exactly the value of the field defined by the format,
// consumes exactly its bits, and fails (without panicking) when the bits run out or are invalid.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, tape_harness, vany, vassume, vcover, vok, vrange};
use crate::verif::tape::{any_tape, reader};

fn agree<T: PartialEq + Copy>(got: Option<T>, want: T, s: &Tape, br: &BitReader) {
    if s.short {
        assert!(got.is_none(), "field cut short must be an error");
    } else {
        assert!(got == Some(want), "field value");
        assert!(br.total_bits_read() == s.pos, "field consumes exactly its bits");
    }
}

// kind: proof
tape_harness!(c02_bool_and_u32, unwind = 10, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let skip = vrange(0, 9);
    s.read(skip);
    vok(br.read(skip));
    vassume(!s.short);
    let (n0, n1, n2, n3) = (vrange(0, 32), vrange(0, 32), vrange(0, 32), vrange(0, 32));
    let off: u32 = vany();
    vassume(n1 < 32 && off <= u32::MAX - ((1u32 << n1) - 1));
    let val: u32 = vany();
    let coder = U32Coder::Select(U32::Bits(n0), U32::BitsOffset { n: n1, off }, U32::Val(val), U32::Bits(n3));
    let r = vok(u32::read_unconditional(&coder, &mut br, &Empty {}));
    let want = s.u32_sel([(n0, 0), (n1, off as u64), (0, val as u64), (n3, 0)]);
    agree(r, want as u32, &s, &br);
    vcover!(r == Some(0xdead), "some value");
    if !s.short {
        let b = vok(bool::read_unconditional(&(), &mut br, &Empty {}));
        let wb = s.read(1) == 1;
        agree(b, wb, &s, &br);
    }
});

// kind: proof
tape_harness!(c02_u32_direct_and_signed, unwind = 10, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let n = vrange(0, 32);
    let which = vrange(0, 2);
    let off = vrange(0, 1 << 20) as u32;
    vassume(which != 1 || n < 32);
    let u = match which {
        0 => U32::Bits(n),
        1 => U32::BitsOffset { n, off },
        _ => U32::Val(off),
    };
    let coder = U32Coder::Direct(u);
    let signed: bool = vany();
    let want = match which {
        0 => s.read(n),
        1 => s.read(n) + off as u64,
        _ => off as u64,
    } as u32;
    if signed {
        let r = vok(i32::read_unconditional(&coder, &mut br, &Empty {}));
        let w = if want % 2 == 0 { (want / 2) as i64 } else { -((want / 2) as i64) - 1 };
        agree(r, w as i32, &s, &br);
    } else {
        let r = vok(u32::read_unconditional(&coder, &mut br, &Empty {}));
        agree(r, want, &s, &br);
    }
});

// kind: proof
harness!(c02_unpack_signed_bijection, {
    let u: u32 = vany();
    let v = unpack_signed(u) as i64;
    let back = if v >= 0 { 2 * v } else { -2 * v - 1 };
    assert!(back == u as i64, "unpack_signed is the zig-zag bijection");
});

// kind: proof
tape_harness!(c02_u64, unwind = 11, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let r = vok(u64::read_unconditional(&(), &mut br, &Empty {}));
    let want = s.u64_field();
    agree(r, want, &s, &br);
    vcover!(s.pos == 2 + 12 + 6 * 9 + 5 && !s.short, "longest encoding");
});

// kind: proof
tape_harness!(c02_f16_field, unwind = 12, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let r = vok(f32::read_unconditional(&(), &mut br, &Empty {}));
    let h = s.read(16) as u32;
    let (sign, e, m) = (h >> 15, (h >> 10) & 31, h & 1023);
    if s.short || e == 31 {
        assert!(r.is_none(), "NaN, infinity and truncation are rejected");
    } else {
        assert!(br.total_bits_read() == 16, "16 bits");
        let mag = if e == 0 {
            m as f32 * f32::from_bits((127 - 24) << 23)
        } else {
            (1024 + m) as f32 * f32::from_bits((127 + e - 25) << 23)
        };
        let want = if sign == 1 { -mag } else { mag };
        assert!(r.is_some() && r.unwrap().to_bits() == want.to_bits(), "exact half-float value");
    }
    vcover!(e == 0 && m == 1, "subnormal");
});

// kind: proof
tape_harness!(c02_enum, unwind = 10, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    use crate::headers::extra_channels::ExtraChannel as E;
    let r = vok(E::read_unconditional(&(), &mut br, &Empty {}));
    let v = s.enum_field();
    if s.short || v > 16 {
        assert!(r.is_none(), "unknown enum values are rejected");
    } else {
        assert!(r.is_some(), "every defined enum value is accepted");
        assert!(r.unwrap() as u64 == v, "enum value");
        assert!(br.total_bits_read() == s.pos, "bits");
    }
    vcover!(v == 16, "last value");
});

// The u64 field's contract (proved in c02_u64) as a ghost-recording abstract callee: some value, some bits.
#[cfg(kani)]
mod u64_contract {
    use super::*;
    pub static mut CALLS: usize = 0;
    pub static mut FIRST: bool = true;
    pub static mut SELECTOR: u64 = 0;
    pub static mut TOTAL: u64 = 0;
    pub static mut OVERFLOW: bool = false;
    pub static mut SHORT: bool = false;
    pub static mut SKIPPED: usize = usize::MAX;
    pub static mut AVAIL: usize = 0;
    pub fn read(_: &(), _br: &mut BitReader, _: &Empty) -> Result<u64, Error> {
        unsafe {
            assert!(!SHORT, "no field is read after a failed one");
            if kani::any() {
                SHORT = true;
                return Err(Error::OutOfBounds(1));
            }
            let v: u64 = kani::any();
            if FIRST {
                FIRST = false;
                // bounded: at most two extensions, at any positions
                let (a, b) = (vrange(0, 63), vrange(0, 63));
                kani::assume(v & !(1u64 << a | 1u64 << b) == 0);
                SELECTOR = v;
            } else {
                let (t, o) = TOTAL.overflowing_add(v);
                TOTAL = t;
                OVERFLOW |= o;
            }
            CALLS += 1;
            Ok(v)
        }
    }
    pub struct Skip<'a>(std::marker::PhantomData<&'a ()>);
    impl<'a> Skip<'a> {
    pub fn skip(_br: &mut BitReader<'a>, n: usize) -> Result<(), Error> {
        unsafe {
            assert!(SKIPPED == usize::MAX, "payload skipped once");
            SKIPPED = n;
            if n > AVAIL { Err(Error::OutOfBounds(1)) } else { Ok(()) }
        }
    }
    }
}

// kind: bounded(at most two of the 64 extensions present)
harness!(
    #[kani::stub(<u64 as UnconditionalCoder<()>>::read_unconditional, u64_contract::read)]
    #[kani::stub(crate::bit_reader::BitReader::skip_bits, u64_contract::Skip::skip)]
    c02t_extensions, unwind = 66, {
    #[cfg(kani)]
    unsafe {
        use u64_contract::*;
        AVAIL = vany();
        let buf = [0u8; 8];
        let mut br = BitReader::new(&buf);
        let r = vok(Extensions::read_unconditional(&(), &mut br, &Empty {})).is_some();
        if SHORT {
            assert!(!r, "a truncated extension header is an error");
        } else if OVERFLOW {
            assert!(!r, "an overflowing total is an error");
        } else {
            let mut n = 1usize;
            let mut i = 0;
            while i < 64 {
                if SELECTOR >> i & 1 != 0 {
                    n += 1;
                }
                i += 1;
            }
            assert!(CALLS == n, "one size per selected extension");
            assert!(SKIPPED == TOTAL as usize, "exactly the announced bits are skipped");
            assert!(r == (TOTAL as usize <= AVAIL), "succeeds exactly when the payload is there");
        }
        vcover!(r && CALLS == 3, "two extensions");
    }
    #[cfg(not(kani))]
    {
        let mut buf = [0u8; 16];
        let mut s = any_tape(&mut buf);
        let mut br = reader(&s, &buf);
        let r = vok(Extensions::read_unconditional(&(), &mut br, &Empty {}));
        let sel = s.u64_field();
        let mut total: u128 = 0;
        for _ in 0..sel.count_ones() {
            total += s.u64_field() as u128;
        }
        if s.short || total > s.left as u128 {
            assert!(r.is_none(), "extension payload past the end is an error");
        } else {
            assert!(r.is_some(), "unknown extensions are skipped");
            assert!(br.total_bits_read() == s.pos + total as usize, "exactly their announced bits are skipped");
        }
    }
});

// kind: bounded(names of up to 2 characters)
tape_harness!(c02_string, unwind = 4, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    vassume(s.left >= 6 && (s.t & 3) as u8 == 1 && (s.t >> 2) & 15 <= 2);
    let r = String::read_unconditional(&(), &mut br, &Empty {});
    let n = s.u32_sel([(0, 0), (4, 0), (5, 16), (10, 48)]) as usize;
    let c0 = if n > 0 { s.read(8) as u8 } else { 0 };
    let c1 = if n > 1 { s.read(8) as u8 } else { 0 };
    match r {
        Err(e) => {
            std::mem::forget(e);
            assert!(s.short, "a complete name is accepted")
        }
        Ok(st) => {
            assert!(!s.short, "a truncated name is an error");
            assert!(br.total_bits_read() == s.pos, "bits");
            // Latin-1 code points as UTF-8.
            let b = st.as_bytes();
            let l0 = if n > 0 { 1 + (c0 >= 128) as usize } else { 0 };
            let l1 = if n > 1 { 1 + (c1 >= 128) as usize } else { 0 };
            assert!(b.len() == l0 + l1, "length");
            if n > 0 {
                assert!(if c0 < 128 { b[0] == c0 } else { b[0] == 0xc0 | (c0 >> 6) && b[1] == 0x80 | (c0 & 63) }, "first character");
            }
            if n > 1 {
                assert!(if c1 < 128 { b[l0] == c1 } else { b[l0] == 0xc0 | (c1 >> 6) && b[l0 + 1] == 0x80 | (c1 & 63) }, "second character");
            }
            std::mem::forget(st);
        }
    }
});

// kind: bounded(vectors of up to 3 elements)
tape_harness!(c02_vector, unwind = 5, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    vassume(s.left >= 64);
    let cond: bool = vany();
    let cfg = VectorCoder { size_coder: U32Coder::Direct(U32::Bits(2)), value_coder: U32Coder::Direct(U32::Bits(7)) };
    let r = vok(Vec::<u32>::read_conditional(&cfg, cond, &mut br, &Empty {}));
    let n = if cond { s.read(2) as usize } else { 0 };
    assert!(r.is_some(), "enough bits");
    if let Some(r) = r {
        assert!(r.len() == n, "length");
        let mut i = 0;
        while i < 3 {
            if i < n {
                assert!(r[i] as u64 == s.read(7), "element");
            }
            i += 1;
        }
        assert!(br.total_bits_read() == s.pos, "bits");
        std::mem::forget(r);
    }
});

// kind: proof
tape_harness!(c02_conditional, unwind = 5, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let c2: bool = vany();
    let o = vok(Option::<u32>::read_conditional(&U32Coder::Direct(U32::Bits(5)), c2, &mut br, &Empty {}));
    let w = if c2 { Some(s.read(5) as u32) } else { None };
    agree(o, w, &s, &br);
    vassume(!s.short);
    let c3: bool = vany();
    let o = vok(u32::read_defaulted(&U32Coder::Direct(U32::Bits(6)), c3, 77, &mut br, &Empty {}));
    let w = if c3 { s.read(6) as u32 } else { 77 };
    agree(o, w, &s, &br);
    vcover!(!c3 && c2, "absent and present");
});
