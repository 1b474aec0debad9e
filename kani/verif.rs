// Root of the verification hook (crate::verif): the nondeterminism source shared by all harnesses.
// Under Kani it is `kani::any`/`kani::assume`; natively it replays a byte stream (a Kani
// counterexample) or a pseudo-random one, so the very same harness text runs on the real code.

#[cfg(kani)]
mod imp {
    pub trait VArb: kani::Arbitrary {}
    impl<T: kani::Arbitrary> VArb for T {}
    #[inline(always)]
    pub fn vany<T: VArb>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn vassume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    pub struct Src {
        pub data: Vec<u8>,
        pub pos: usize,
        pub random: Option<u64>,
        pub log: Vec<u8>,
    }
    thread_local! {
        pub static SRC: RefCell<Src> = RefCell::new(Src { data: vec![], pos: 0, random: None, log: vec![] });
    }
    /// Payload of the panic that ends a run whose assumptions do not hold.
    pub struct Rejected;

    fn next_rand(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn bytes(n: usize) -> Vec<u8> {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            let out: Vec<u8> = if let Some(st) = s.random.as_mut() {
                // Edge-biased: small values, all-ones, sign bits, powers of two, uniform.
                let mut v = vec![0u8; n];
                let r = next_rand(st);
                match r % 8 {
                    0 => {}
                    1 => v.iter_mut().for_each(|x| *x = 0xff),
                    2 => v[0] = (r >> 8) as u8,
                    3 => {
                        let b = ((r >> 8) as usize) % (8 * n);
                        v[b / 8] = 1 << (b % 8);
                        if r >> 63 != 0 {
                            // power of two minus one
                            for i in 0..8 * n {
                                if i < b { v[i / 8] |= 1 << (i % 8) } else { v[i / 8] &= !(1 << (i % 8)) }
                            }
                        }
                    }
                    4 => v[0] = ((r >> 8) & 15) as u8,
                    _ => {
                        for x in v.iter_mut() {
                            *x = (next_rand(st) >> 24) as u8;
                        }
                    }
                }
                v
            } else {
                let p = s.pos;
                s.pos += n;
                (p..p + n).map(|i| s.data.get(i).copied().unwrap_or(0)).collect()
            };
            s.log.extend_from_slice(&out);
            out
        })
    }
    pub trait VArb: Sized {
        fn arb() -> Self;
    }
    macro_rules! arb_int { ($($t:ty),*) => { $(impl VArb for $t { fn arb() -> Self {
        let b = bytes(std::mem::size_of::<$t>());
        let mut a = [0u8; std::mem::size_of::<$t>()];
        a.copy_from_slice(&b);
        <$t>::from_le_bytes(a)
    } })* } }
    arb_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    impl VArb for bool {
        fn arb() -> Self {
            bytes(1)[0] & 1 == 1
        }
    }
    impl VArb for f32 {
        fn arb() -> Self {
            f32::from_bits(u32::arb())
        }
    }
    impl<T: VArb, const N: usize> VArb for [T; N] {
        fn arb() -> Self {
            std::array::from_fn(|_| T::arb())
        }
    }
    pub fn vany<T: VArb>() -> T {
        T::arb()
    }
    pub fn vassume(c: bool) {
        if !c {
            std::panic::panic_any(Rejected)
        }
    }
    /// Native driver. `args`: `replay FILE` or `search SEED COUNT SECONDS OUT`. Exit code 0: no failure, 1: failure.
    pub fn drive(name: &str, f: fn(), args: &[String]) -> i32 {
        use std::panic::{AssertUnwindSafe, catch_unwind};
        let run = |silent: bool| -> Result<bool, String> {
            match catch_unwind(AssertUnwindSafe(f)) {
                Ok(()) => Ok(true),
                Err(e) => {
                    if e.downcast_ref::<Rejected>().is_some() {
                        Ok(false)
                    } else if let Some(s) = e.downcast_ref::<String>() {
                        Err(s.clone())
                    } else if let Some(s) = e.downcast_ref::<&str>() {
                        Err(s.to_string())
                    } else {
                        Err("panic".into())
                    }
                }
            }
        };
        std::panic::set_hook(Box::new(|i| {
            if i.payload().downcast_ref::<Rejected>().is_none() {
                if std::env::var_os("VERIF_VERBOSE").is_some() {
                    eprintln!("{i}");
                }
                LOC.with(|l| *l.borrow_mut() = i.location().map(|l| l.to_string()).unwrap_or_default());
            }
        }));
        match args[0].as_str() {
            "replay" => {
                let data = std::fs::read(&args[1]).unwrap();
                SRC.with(|s| *s.borrow_mut() = Src { data, pos: 0, random: None, log: vec![] });
                match run(false) {
                    Ok(true) => { println!("{name}: held on this input"); 0 }
                    Ok(false) => { println!("{name}: input rejected by the precondition"); 0 }
                    Err(e) => {
                        println!("{name}: FAILED at {}: {e}", LOC.with(|l| l.borrow().clone()));
                        1
                    }
                }
            }
            "search" => {
                let seed: u64 = args[1].parse().unwrap();
                let count: u64 = args[2].parse().unwrap();
                let secs: f64 = args[3].parse().unwrap();
                let t0 = std::time::Instant::now();
                let (mut accepted, mut tried) = (0u64, 0u64);
                for i in 0..count {
                    if t0.elapsed().as_secs_f64() > secs {
                        break;
                    }
                    tried += 1;
                    SRC.with(|s| *s.borrow_mut() = Src { data: vec![], pos: 0,
                        random: Some(seed.wrapping_mul(0x2545F4914F6CDD1D).wrapping_add(i.wrapping_mul(0xD1342543DE82EF95))), log: vec![] });
                    match run(true) {
                        Ok(true) => accepted += 1,
                        Ok(false) => {}
                        Err(e) => {
                            let log = SRC.with(|s| s.borrow().log.clone());
                            std::fs::write(&args[4], &log).unwrap();
                            println!("{name}: FAILED at {}: {e}", LOC.with(|l| l.borrow().clone()));
                            println!("tried {tried} accepted {accepted}");
                            return 1;
                        }
                    }
                }
                println!("tried {tried} accepted {accepted}");
                0
            }
            _ => 2,
        }
    }
    thread_local! { static LOC: RefCell<String> = RefCell::new(String::new()); }
}
pub use imp::*;

/// Any value in lo..=hi.
#[inline(always)]
pub fn vrange(lo: usize, hi: usize) -> usize {
    #[cfg(kani)]
    {
        let x: usize = vany();
        vassume(x >= lo && x <= hi);
        x
    }
    #[cfg(not(kani))]
    {
        let x: usize = vany();
        if x >= lo && x <= hi {
            x
        } else if vrandom() {
            let v = lo + (x % (hi - lo + 1));
            relog(8, &(v as u64).to_le_bytes());
            v
        } else {
            vassume(false);
            0
        }
    }
}
#[inline(always)]
pub fn vrange_i(lo: i64, hi: i64) -> i64 {
    let d = (hi - lo) as usize;
    lo + vrange(0, d) as i64
}
#[cfg(not(kani))]
fn vrandom() -> bool {
    imp::SRC.with(|s| s.borrow().random.is_some())
}
#[cfg(not(kani))]
fn relog(n: usize, b: &[u8]) {
    imp::SRC.with(|s| {
        let mut s = s.borrow_mut();
        let l = s.log.len();
        s.log[l - n..].copy_from_slice(b);
    })
}

/// A reachability check: under Kani it must be satisfiable, or the harness is vacuous.
macro_rules! vcover {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        { let _ = $c; }
    }};
}
pub(crate) use vcover;

/// `harness!(name, unwind = N, { body })` / `harness!(name, { body })` (loop-free or constant-bound loops).
macro_rules! harness {
    ($(#[$m:meta])* $name:ident, unwind = $n:literal, $body:block) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($n)]
        $(#[cfg_attr(kani, $m)])*
        fn $name() $body
        #[cfg(not(kani))]
        #[unsafe(no_mangle)]
        pub fn $name() $body
    };
    ($(#[$m:meta])* $name:ident, $body:block) => {
        #[cfg(kani)]
        #[kani::proof]
        $(#[cfg_attr(kani, $m)])*
        fn $name() $body
        #[cfg(not(kani))]
        #[unsafe(no_mangle)]
        pub fn $name() $body
    };
}
pub(crate) use harness;

/// A bounded stand-in: native only, searched with a fixed seed and count (see `sampled_phase` in tools/check.py).
macro_rules! sampled {
    ($name:ident, $body:block) => {
        #[cfg(not(kani))]
        #[unsafe(no_mangle)]
        pub fn $name() $body
    };
}
#[allow(unused_imports)]
pub(crate) use sampled;

/// Specification-side bit stream: the bits of a 128-bit tape, LSB first, independent of BitReader.
#[derive(Clone, Copy)]
pub struct Tape {
    pub t: u128,
    pub left: usize,
    pub pos: usize,
    pub short: bool,
}
impl Tape {
    /// The next n <= 64 bits; sets `short` (and stays put) when fewer remain.
    pub fn read(&mut self, n: usize) -> u64 {
        if self.short || n > self.left {
            self.short = true;
            return 0;
        }
        let v = if n == 64 { self.t as u64 } else { (self.t as u64) & ((1u64 << n) - 1) };
        self.t = if n == 0 { self.t } else { self.t >> n };
        self.left -= n;
        self.pos += n;
        v
    }
    /// U32(Select): 2-bit selector, then (bits, offset) of the chosen case.
    pub fn u32_sel(&mut self, c: [(usize, u64); 4]) -> u64 {
        match self.read(2) {
            0 => self.read(c[0].0) + c[0].1,
            1 => self.read(c[1].0) + c[1].1,
            2 => self.read(c[2].0) + c[2].1,
            _ => self.read(c[3].0) + c[3].1,
        }
    }
    pub fn u64_field(&mut self) -> u64 {
        match self.read(2) {
            0 => 0,
            1 => 1 + self.read(4),
            2 => 17 + self.read(8),
            _ => {
                let mut v = self.read(12);
                let mut sh = 12;
                while self.read(1) == 1 && !self.short {
                    if sh == 60 {
                        v |= self.read(4) << 60;
                        break;
                    }
                    v |= self.read(8) << sh;
                    sh += 8;
                }
                v
            }
        }
    }
    pub fn enum_field(&mut self) -> u64 {
        self.u32_sel([(0, 0), (0, 1), (4, 2), (6, 18)])
    }
    pub fn bool(&mut self) -> bool {
        self.read(1) == 1
    }
    /// Half-float field; None when NaN, infinite.
    pub fn f16(&mut self) -> Option<f32> {
        let h = self.read(16) as u32;
        let (sign, e, m) = (h >> 15, (h >> 10) & 31, h & 1023);
        if e == 31 {
            return None;
        }
        let mag = if e == 0 {
            m as f32 * f32::from_bits((127 - 24) << 23)
        } else {
            (1024 + m) as f32 * f32::from_bits((127 + e - 25) << 23)
        };
        Some(if sign == 1 { -mag } else { mag })
    }
}

/// Specification-side reading, over a tape (Kani), a bit string, or a generator that records what the specification asks for.
pub trait Rd {
    fn get(&mut self, n: usize) -> u64;
    fn is_short(&self) -> bool;
    fn sel(&mut self, c: [(usize, u64); 4]) -> u64 {
        let i = self.get(2) as usize;
        self.get(c[i].0) + c[i].1
    }
    fn en(&mut self) -> u64 {
        self.sel([(0, 0), (0, 1), (4, 2), (6, 18)])
    }
    fn flag(&mut self) -> bool {
        self.get(1) == 1
    }
    fn half(&mut self) -> Option<f32> {
        let h = self.get(16) as u32;
        let (sign, e, m) = (h >> 15, (h >> 10) & 31, h & 1023);
        if e == 31 || self.is_short() {
            return None;
        }
        let mag = if e == 0 { m as f32 * f32::from_bits((127 - 24) << 23) } else { (1024 + m) as f32 * f32::from_bits((127 + e - 25) << 23) };
        Some(if sign == 1 { -mag } else { mag })
    }
    fn u64f(&mut self) -> u64 {
        match self.get(2) {
            0 => 0,
            1 => 1 + self.get(4),
            2 => 17 + self.get(8),
            _ => {
                let mut v = self.get(12);
                let mut sh = 12;
                while self.get(1) == 1 && !self.is_short() {
                    if sh == 60 {
                        v |= self.get(4) << 60;
                        break;
                    }
                    v |= self.get(8) << sh;
                    sh += 8;
                }
                v
            }
        }
    }
    fn signed(&mut self, c: [(usize, u64); 4]) -> i64 {
        let u = self.sel(c) as i64;
        if u % 2 == 0 { u / 2 } else { -(u / 2) - 1 }
    }
}
impl Rd for Tape {
    fn get(&mut self, n: usize) -> u64 {
        self.read(n)
    }
    fn is_short(&self) -> bool {
        self.short
    }
}

/// The modular step: under Kani, callers of BitReader are checked against BitReader's *contract*
/// (proved for the real body in C01), not its body. The contract is this abstract reader over one
/// 128-bit tape; `tape_harness!` substitutes it with `kani::stub`. Natively the real BitReader runs.
pub mod tape {
    use super::*;
    use crate::bit_reader::BitReader;
    #[cfg(kani)]
    pub static mut T: Tape = Tape { t: 0, left: 0, pos: 0, short: false };
    #[cfg(kani)]
    static mut OVER: usize = 0;

    /// An arbitrary stream of at most 16 bytes: the reader under test and the specification's copy.
    #[inline(always)]
    pub fn any_tape(buf: &mut [u8; 16]) -> Tape {
        *buf = vany();
        let len = vrange(0, 16);
        Tape { t: u128::from_le_bytes(*buf), left: 8 * len, pos: 0, short: false }
    }
    #[inline(always)]
    pub fn reader<'a>(t: &Tape, buf: &'a [u8; 16]) -> BitReader<'a> {
        #[cfg(kani)]
        unsafe {
            T = *t;
            OVER = 0;
        }
        BitReader::new(&buf[..t.left / 8])
    }
    #[cfg(kani)]
    mod stubs {
        use super::*;
        use crate::error::Error;
        fn raw(n: usize) -> u64 {
            unsafe { (T.t as u64) & ((1u64 << n) - 1) }
        }
        fn adv(n: usize) {
            unsafe {
                T.t >>= n;
                T.left -= n;
                T.pos += n;
            }
        }
        pub struct Stub<'a>(std::marker::PhantomData<&'a ()>);
        impl<'a> Stub<'a> {
        pub fn read(_br: &mut BitReader<'a>, n: usize) -> Result<u64, Error> {
            assert!(n <= 56, "BitReader::read precondition");
            if n > unsafe { T.left } {
                return Err(Error::OutOfBounds(1));
            }
            let v = raw(n);
            adv(n);
            Ok(v)
        }
        pub fn peek(_br: &mut BitReader<'a>, n: usize) -> u64 {
            assert!(n <= 56, "BitReader::peek precondition");
            let left = unsafe { T.left };
            // Bits past the end are unspecified by the contract.
            let junk: u64 = if left < n { kani::any() } else { 0 };
            let m = (1u64 << n) - 1;
            if left < n { (raw(left) | (junk << left)) & m } else { raw(n) }
        }
        pub fn consume(_br: &mut BitReader<'a>, n: usize) -> Result<(), Error> {
            if n > unsafe { T.left } {
                return Err(Error::OutOfBounds(1));
            }
            adv(n);
            Ok(())
        }
        pub fn consume_optimistic(_br: &mut BitReader<'a>, n: usize) {
            unsafe {
                if n > T.left {
                    OVER += n - T.left;
                    adv(T.left);
                } else {
                    adv(n);
                }
            }
        }
        pub fn read_optimistic(br: &mut BitReader<'a>, n: usize) -> u64 {
            let v = Self::peek(br, n);
            Self::consume_optimistic(br, n);
            v
        }
        pub fn check_for_error(_br: &BitReader<'a>) -> Result<(), Error> {
            if unsafe { OVER } > 0 { Err(Error::OutOfBounds(1)) } else { Ok(()) }
        }
        pub fn total_bits_read(_br: &BitReader<'a>) -> usize {
            unsafe { T.pos + OVER }
        }
        pub fn total_bits_available(_br: &BitReader<'a>) -> usize {
            unsafe { T.left }
        }
        pub fn skip_bits(_br: &mut BitReader<'a>, n: usize) -> Result<(), Error> {
            if n > unsafe { T.left } {
                adv(unsafe { T.left });
                return Err(Error::OutOfBounds(1));
            }
            adv(n);
            Ok(())
        }
        pub fn bits_to_next_byte(_br: &BitReader<'a>) -> usize {
            unsafe { (8 - (T.pos + OVER) % 8) % 8 }
        }
        pub fn jump_to_byte_boundary(br: &mut BitReader<'a>) -> Result<(), Error> {
            let n = Self::bits_to_next_byte(br);
            if Self::read(br, n)? != 0 {
                return Err(Error::NonZeroPadding);
            }
            Ok(())
        }
        }
    }
    #[cfg(kani)]
    pub use stubs::*;
}

/// A harness whose callee BitReader is represented by its contract (see `tape`).
macro_rules! tape_harness {
    ($(#[$m:meta])* $name:ident, unwind = $n:literal, $body:block) => {
        crate::verif::harness!(
            #[kani::stub(crate::bit_reader::BitReader::read, crate::verif::tape::Stub::read)]
            #[kani::stub(crate::bit_reader::BitReader::read_noinline, crate::verif::tape::Stub::read)]
            #[kani::stub(crate::bit_reader::BitReader::peek, crate::verif::tape::Stub::peek)]
            #[kani::stub(crate::bit_reader::BitReader::consume, crate::verif::tape::Stub::consume)]
            #[kani::stub(crate::bit_reader::BitReader::consume_optimistic, crate::verif::tape::Stub::consume_optimistic)]
            #[kani::stub(crate::bit_reader::BitReader::read_optimistic, crate::verif::tape::Stub::read_optimistic)]
            #[kani::stub(crate::bit_reader::BitReader::check_for_error, crate::verif::tape::Stub::check_for_error)]
            #[kani::stub(crate::bit_reader::BitReader::total_bits_read, crate::verif::tape::Stub::total_bits_read)]
            #[kani::stub(crate::bit_reader::BitReader::total_bits_available, crate::verif::tape::Stub::total_bits_available)]
            #[kani::stub(crate::bit_reader::BitReader::skip_bits, crate::verif::tape::Stub::skip_bits)]
            #[kani::stub(crate::bit_reader::BitReader::bits_to_next_byte, crate::verif::tape::Stub::bits_to_next_byte)]
            #[kani::stub(crate::bit_reader::BitReader::jump_to_byte_boundary, crate::verif::tape::Stub::jump_to_byte_boundary)]
            $(#[$m])* $name, unwind = $n, $body);
    };
}
pub(crate) use tape_harness;

/// Discards an error without running its (large) drop glue.
#[inline(always)]
pub fn vok<T>(r: Result<T, crate::error::Error>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}

/// Native only: writer and specification-side reader of bit strings of any length (for bounded stand-ins).
#[cfg(not(kani))]
pub mod bits {
    use super::vrange;
    #[derive(Clone, Default)]
    pub struct BitW {
        pub data: Vec<u8>,
        pub n: usize,
    }
    #[allow(dead_code)]
    impl BitW {
        pub fn put(&mut self, v: u64, bits: usize) {
            for i in 0..bits {
                if self.n % 8 == 0 {
                    self.data.push(0);
                }
                if v >> i & 1 == 1 {
                    *self.data.last_mut().unwrap() |= 1 << (self.n % 8);
                }
                self.n += 1;
            }
        }
        /// A code word, first bit most significant.
        pub fn code(&mut self, v: usize, bits: usize) {
            for i in (0..bits).rev() {
                self.put((v >> i) as u64 & 1, 1);
            }
        }
        /// The 8-bit variable-length code.
        pub fn var8(&mut self, x: usize) {
            self.var(x, 3)
        }
        pub fn var(&mut self, x: usize, nb: usize) {
            self.put((x > 0) as u64, 1);
            if x > 0 {
                let k = x.ilog2() as usize;
                self.put(k as u64, nb);
                self.put((x - (1 << k)) as u64, k);
            }
        }
        pub fn noise(&mut self, bytes: usize) {
            for _ in 0..bytes {
                self.put(super::vany::<u8>() as u64, 8);
            }
        }
        /// Sometimes flips a bit or cuts the end off.
        pub fn mutate(&mut self) {
            if self.data.is_empty() {
                return;
            }
            match vrange(0, 7) {
                0 | 1 => {
                    let b = vrange(0, 8 * self.data.len() - 1);
                    self.data[b / 8] ^= 1 << (b % 8);
                }
                2 => self.data.truncate(vrange(0, self.data.len() - 1)),
                _ => {}
            }
        }
    }
    #[derive(Clone)]
    pub struct BitS<'a> {
        pub data: &'a [u8],
        pub pos: usize,
        pub short: bool,
    }
    #[allow(dead_code)]
    impl<'a> BitS<'a> {
        pub fn new(data: &'a [u8]) -> Self {
            Self { data, pos: 0, short: false }
        }
        pub fn left(&self) -> usize {
            self.data.len() * 8 - self.pos
        }
        pub fn peek(&self, i: usize) -> usize {
            let p = self.pos + i;
            if p < self.data.len() * 8 { (self.data[p / 8] >> (p % 8) & 1) as usize } else { 0 }
        }
        pub fn read(&mut self, n: usize) -> u64 {
            if self.short || n > self.left() {
                self.short = true;
                return 0;
            }
            let mut v = 0;
            for i in 0..n {
                v |= (self.peek(i) as u64) << i;
            }
            self.pos += n;
            v
        }
        pub fn bool(&mut self) -> bool {
            self.read(1) == 1
        }
        pub fn var(&mut self, nb: usize) -> usize {
            if self.bool() {
                let k = self.read(nb) as usize;
                (1 << k) + self.read(k) as usize
            } else {
                0
            }
        }
        /// A canonical prefix code given by its lengths: symbols by (length, index) take consecutive code words.
        pub fn canonical(&mut self, lens: &[u8]) -> usize {
            let used = lens.iter().filter(|l| **l > 0).count();
            if used == 1 {
                return lens.iter().position(|l| *l > 0).unwrap();
            }
            let (mut code, mut first) = (0usize, 0usize);
            for len in 1..=15 {
                code = code * 2 + self.read(1) as usize;
                first *= 2;
                let n = lens.iter().filter(|l| **l as usize == len).count();
                if code < first + n {
                    return lens.iter().enumerate().filter(|(_, l)| **l as usize == len).nth(code - first).unwrap().0;
                }
                first += n;
            }
            self.short = true;
            0
        }
    }
    impl super::Rd for BitS<'_> {
        fn get(&mut self, n: usize) -> u64 {
            self.read(n)
        }
        fn is_short(&self) -> bool {
            self.short
        }
    }
    /// Generates a stream by answering the specification's questions.
    impl super::Rd for BitW {
        fn get(&mut self, n: usize) -> u64 {
            let v = if n == 0 { 0 } else { super::vany::<u64>() & (u64::MAX >> (64 - n)) };
            self.put(v, n);
            v
        }
        fn is_short(&self) -> bool {
            false
        }
    }
    /// The code word of each symbol of a canonical code.
    pub fn canonical_words(lens: &[u8]) -> Vec<(usize, usize)> {
        let used = lens.iter().filter(|l| **l > 0).count();
        let mut out = vec![(0, 0); lens.len()];
        if used == 1 {
            return out;
        }
        let mut code = 0;
        for len in 1..=15usize {
            code *= 2;
            for (i, l) in lens.iter().enumerate() {
                if *l as usize == len {
                    out[i] = (code, len);
                    code += 1;
                }
            }
        }
        out
    }
    /// Random lengths of a complete code over `n` symbols of which `used` occur.
    pub fn any_complete_code(n: usize, used: usize, max: u8) -> Vec<u8> {
        let mut leaves = vec![0u8];
        while leaves.len() < used {
            let i = if vrange(0, 2) == 0 { leaves.len() - 1 } else { vrange(0, leaves.len() - 1) };
            let i = if leaves[i] < max { i } else { leaves.iter().position(|l| *l < max).unwrap() };
            leaves[i] += 1;
            let l = leaves[i];
            leaves.push(l);
        }
        if used == 1 {
            leaves[0] = vrange(1, max as usize) as u8;
        }
        let mut lens = vec![0u8; n];
        for l in leaves {
            let mut i = vrange(0, n - 1);
            while lens[i] != 0 {
                i = (i + 1) % n;
            }
            lens[i] = l;
        }
        lens
    }
    /// Prefix-code tables (RFC 7932 sections 3.4 and 3.5): specification-side decoder, and a writer of random tables.
    #[allow(dead_code)]
    pub mod prefix {
        use super::super::vrange;
        use super::*;
        const ORDER: [usize; 18] = [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15];
        const STATIC: [(usize, usize); 6] = [(0, 2), (14, 4), (6, 3), (1, 2), (2, 2), (15, 4)];

        fn static_code(s: &mut BitS) -> u8 {
            // 0:00 1:1110 2:110 3:01 4:10 5:1111 with the first bit least significant
            let w = s.peek(0) | s.peek(1) << 1;
            let (v, b) = match w {
                0 => (0, 2),
                1 => (4, 2),
                2 => (3, 2),
                _ => if s.peek(2) == 0 { (2, 3) } else if s.peek(3) == 0 { (1, 4) } else { (5, 4) },
            };
            s.read(b);
            v
        }
        /// RFC 7932 sections 3.4 and 3.5 for an alphabet of `al` symbols: the code lengths (all-zero lengths plus the
        /// symbol for a one-symbol code), or None.
        pub fn spec(s: &mut BitS, al: usize) -> Option<(Vec<u8>, Option<usize>)> {
            if al == 1 {
                return Some((vec![0], Some(0)));
            }
            let skip = s.read(2) as usize;
            let mut lens = vec![0u8; al];
            if skip == 1 {
                let bits = (0..).find(|b| 1usize << b >= al).unwrap();
                let n = s.read(2) as usize + 1;
                let mut y = vec![];
                for _ in 0..n {
                    let v = s.read(bits) as usize;
                    if v >= al || y.contains(&v) || s.short {
                        return None;
                    }
                    y.push(v);
                }
                let l: &[u8] = match (n, n == 4 && s.bool()) {
                    (1, _) => return Some((lens, Some(y[0]))),
                    (2, _) => &[1, 1],
                    (3, _) => &[1, 2, 2],
                    (_, false) => &[2, 2, 2, 2],
                    _ => &[1, 2, 3, 3],
                };
                if s.short {
                    return None;
                }
                for (i, v) in y.iter().enumerate() {
                    lens[*v] = l[i];
                }
                return Some((lens, None));
            }
            let mut cl = [0u8; 18];
            let (mut space, mut n) = (32i32, 0);
            for i in ORDER.iter().skip(skip) {
                if space <= 0 {
                    break;
                }
                cl[*i] = static_code(s);
                if cl[*i] != 0 {
                    space -= 32 >> cl[*i];
                    n += 1;
                }
            }
            if n != 1 && space != 0 {
                return None;
            }
            let (mut sym, mut prev, mut rep, mut rep_len) = (0usize, 8u8, 0usize, 0u8);
            let mut space: i64 = 1 << 15;
            while sym < al && space > 0 {
                let c = s.canonical(&cl) as u8;
                if s.short {
                    return None;
                }
                if c < 16 {
                    rep = 0;
                    lens[sym] = c;
                    sym += 1;
                    if c != 0 {
                        prev = c;
                        space -= 32768 >> c;
                    }
                } else {
                    let xb = if c == 16 { 2 } else { 3 };
                    let nl = if c == 16 { prev } else { 0 };
                    if nl != rep_len {
                        rep = 0;
                        rep_len = nl;
                    }
                    let old = rep;
                    if rep > 0 {
                        rep = (rep - 2) << xb;
                    }
                    rep += s.read(xb) as usize + 3;
                    let d = rep - old;
                    if sym + d > al {
                        return None;
                    }
                    lens[sym..sym + d].fill(rep_len);
                    sym += d;
                    if rep_len > 0 {
                        space -= (d << (15 - rep_len as usize)) as i64;
                    }
                }
            }
            if space != 0 || s.short {
                return None;
            }
            Some((lens, None))
        }
        /// Writes a random (usually valid) table for `al` symbols.
        pub fn write(w: &mut BitW, al: usize) {
            if al == 1 {
                return;
            }
            if vrange(0, 3) == 0 {
                w.put(1, 2);
                let bits = (0..).find(|b| 1usize << b >= al).unwrap();
                let n = vrange(1, 4.min(al));
                w.put(n as u64 - 1, 2);
                let mut y = vec![];
                for _ in 0..n {
                    let mut v = vrange(0, al - 1);
                    while y.contains(&v) && vrange(0, 15) > 0 {
                        v = (v + 1) % al;
                    }
                    y.push(v);
                    w.put(v as u64, bits);
                }
                if n == 4 {
                    w.put(vrange(0, 1) as u64, 1);
                }
                return;
            }
            let used = vrange(2, al);
            let lens = any_complete_code(al, used, 15);
            // A code-length code in which everything needed occurs.
            let used = if vrange(0, 3) == 0 { 18 } else { 16 };
            let mut cl = any_complete_code(18, used, 5);
            for (i, l) in lens.iter().map(|l| *l as usize).chain([16, 17]).enumerate() {
                if cl[l] == 0 && (i < al || used == 18) {
                    // swap in an unused symbol's code
                    let need: Vec<usize> = lens.iter().map(|l| *l as usize).collect();
                    if let Some(k) = (0..18).find(|k| cl[*k] != 0 && !need.contains(k)) {
                        cl[l] = cl[k];
                        cl[k] = 0;
                    }
                }
            }
            let skip = if cl[1] == 0 && cl[2] == 0 { if cl[3] == 0 { [0, 2, 3][vrange(0, 2)] } else { [0, 2][vrange(0, 1)] } } else { 0 };
            w.put(skip as u64, 2);
            let mut space = 32i32;
            for i in ORDER.iter().skip(skip) {
                if space <= 0 {
                    break;
                }
                // codes in stream order: 00 0111 011 10 01 1111
                let (c, n) = [(0u64, 2), (7, 4), (3, 3), (2, 2), (1, 2), (15, 4)][cl[*i] as usize];
                w.put(c, n);
                if cl[*i] != 0 {
                    space -= 32 >> cl[*i];
                }
            }
            let _ = STATIC;
            let words = canonical_words(&cl);
            let mut emit = |w: &mut BitW, c: usize| w.code(words[c].0, words[c].1);
            let last = lens.iter().rposition(|l| *l > 0).unwrap();
            let (mut i, mut prev) = (0, 8u8);
            while i <= last {
                let run = lens[i..=last].iter().take_while(|l| **l == lens[i]).count();
                let c = if lens[i] == 0 { 17 } else { 16 };
                if run >= 3 && cl[c] > 0 && (lens[i] == 0 || lens[i] == prev) && vrange(0, 3) > 0 {
                    let k = run.min(if c == 16 { 6 } else { 10 });
                    emit(w, c);
                    w.put(k as u64 - 3, if c == 16 { 2 } else { 3 });
                    i += k;
                    // A following run of the same kind multiplies; leave that to the noise unless it is broken here.
                    if run > k && vrange(0, 3) > 0 {
                        emit(w, lens[i] as usize);
                        if lens[i] != 0 {
                            prev = lens[i];
                        }
                        i += 1;
                    }
                } else {
                    emit(w, lens[i] as usize);
                    if lens[i] != 0 {
                        prev = lens[i];
                    }
                    i += 1;
                }
            }
        }
    }
}
