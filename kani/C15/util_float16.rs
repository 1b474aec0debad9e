// C15: half-precision conversions.
#[allow(unused_imports)]
use crate::verif::{harness, vany, vassume, vcover};

/// Nearest half (ties to even) of an f32's bits, by integer arithmetic on its quantum.
fn nearest_half(bits: u32) -> u16 {
    let sign = ((bits >> 31) as u16) << 15;
    let e = (bits >> 23) & 255;
    let mant = bits & 0x7fffff;
    if e == 255 {
        return sign | 0x7c00 | if mant != 0 { 0x200 } else { 0 };
    }
    let m = (mant | if e > 0 { 1 << 23 } else { 0 }) as u64;
    let ee = if e > 0 { e as i32 } else { 1 } - 127;
    let he = if ee < -14 { -14 } else { ee };
    let shift = he - 10 - (ee - 23);
    let r = if shift > 40 {
        0
    } else {
        let (q, rem, half) = (m >> shift, m & ((1 << shift) - 1), 1u64 << (shift - 1));
        q + (rem > half || (rem == half && q & 1 == 1)) as u64
    };
    let h = ((he + 14) as u64) * 1024 + r;
    sign | if h >= 0x7c00 { 0x7c00 } else { h as u16 }
}
fn exact_f32(h: u16) -> f32 {
    let (e, m) = ((h >> 10) & 31, (h & 1023) as u32);
    let mag = if e == 0 { m as f32 * f32::from_bits(103 << 23) } else { (1024 + m) as f32 * f32::from_bits((102 + e as u32) << 23) };
    if h >> 15 == 1 { -mag } else { mag }
}

// kind: proof
harness!(c15_half_to_f32_exact, unwind = 12, {
    let h: u16 = vany();
    let f = f16::from_bits(h).to_f32();
    let sf = jxl_simd::f16::from_bits(h).to_f32();
    if (h >> 10) & 31 == 31 {
        if h & 1023 == 0 {
            assert!(f == if h >> 15 == 1 { f32::NEG_INFINITY } else { f32::INFINITY }, "infinity");
        } else {
            assert!(f.is_nan() && f.is_sign_negative() == (h >> 15 == 1), "NaN");
        }
        assert!(!f16::from_bits(h).is_finite(), "is_finite");
    } else {
        assert!(f.to_bits() == exact_f32(h).to_bits(), "exact value");
        assert!(f16::from_bits(h).is_finite(), "is_finite");
    }
    assert!(sf.to_bits() == f.to_bits(), "the SIMD crate's conversion agrees");
    let g: f32 = f16::from_bits(h).into();
    assert!(g.to_bits() == f.to_bits(), "From");
    vcover!(h == 1, "smallest subnormal");
});

// kind: proof
harness!(c15_f32_to_half_nearest, unwind = 12, {
    let b: u32 = vany();
    let h = f16::from_f32(f32::from_bits(b)).to_bits();
    let w = nearest_half(b);
    assert!(h == w, "round to nearest, ties to even");
    let s = jxl_simd::f16::from_f32(f32::from_bits(b)).to_bits();
    assert!(s == w, "the SIMD crate's conversion agrees");
    vcover!(h == 1, "subnormal result");
    vcover!(h == 0x7bff, "largest finite");
});

// kind: proof
harness!(c15_round_trip, unwind = 12, {
    let h: u16 = vany();
    let r = f16::from_f32(f16::from_bits(h).to_f32()).to_bits();
    if (h >> 10) & 31 == 31 && h & 1023 != 0 {
        assert!((r >> 10) & 31 == 31 && r & 1023 != 0, "NaN stays NaN");
    } else {
        assert!(r == h, "every finite or infinite half survives the round trip");
    }
    let x = f16::from_bits(h);
    assert!(x.to_le_bytes() == h.to_le_bytes() && x.to_be_bytes() == h.to_be_bytes() && x.to_bits() == h, "bytes");
});
