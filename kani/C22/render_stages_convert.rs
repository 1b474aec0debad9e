// C22: sample format conversions.
#[allow(unused_imports)]
use crate::verif::{harness, vany, vassume, vcover, vrange};

// kind: proof
harness!(c22_f32_to_u8, unwind = 4, {
    let (x, y) = (vrange(0, 1 << 20), vrange(0, 1 << 20));
    let ch = vrange(0, 4);
    let max = 255f32;
    let v: f32 = vany();
    let input = [v];
    let mut out = [0u8, 77];
    f32_to_u8_simd_dispatch(&input, &mut out, max, (x, y), ch, 1);
    let d = DITHER_TABLE[(y + ch * 13) % 32][(x + ch * 23) % 32];
    assert!(d.abs() < 0.5, "the dither never reaches half a step");
    let t = v * max + d;
    let o = out[0] as f32;
    if v.is_nan() || t <= 0.0 {
        assert!(out[0] == 0, "negative and NaN samples become 0");
    } else if t >= max {
        assert!(o == max, "large samples saturate");
    } else {
        assert!((o - t).abs() <= 0.5, "nearest integer to the dithered sample");
    }
    assert!(out[1] == 77, "nothing after the requested pixels is written");
    vcover!(out[0] == 3, "mid value");
});

// kind: proof
harness!(c22_u8_stays_in_depth, unwind = 4, {
    let max = ((1u32 << vrange(1, 8)) - 1) as f32;
    let v: f32 = vany();
    let mut out = [0u8];
    f32_to_u8_simd_dispatch(&[v], &mut out, max, (3, 5), 0, 1);
    assert!(out[0] as f32 <= max, "never above the maximum of the bit depth");
    let mut out = [0u16];
    let max = ((1u32 << vrange(1, 16)) - 1) as f32;
    f32_to_u16_simd_dispatch(&[v], &mut out, max, 1);
    assert!(out[0] as f32 <= max, "never above the maximum of the bit depth");
});

// kind: proof
harness!(c22_rows, unwind = 5, {
    // Each pixel of a row is converted with its own position (dither) and sample; nothing else is written.
    let (x, y) = (vrange(28, 34), 7);
    let ks = [vrange(0, 255), vrange(0, 255), vrange(0, 255)];
    let input = [ks[0] as f32 / 256.0, ks[1] as f32 / 256.0, ks[2] as f32 / 256.0];
    let mut out = [0u8, 0, 0];
    let n = vrange(0, 3);
    f32_to_u8_simd_dispatch(&input, &mut out, 255.0, (x, y), 1, n);
    let i = vrange(0, 2);
    let mut one = [0u8];
    f32_to_u8_simd_dispatch(&[ks[i] as f32 / 256.0], &mut one, 255.0, (x + i, y), 1, 1);
    assert!(out[i] == if i < n { one[0] } else { 0 }, "row equals its pixels");
    let mut out = [0u16, 0, 0];
    f32_to_u16_simd_dispatch(&input, &mut out, 65535.0, n);
    let mut one = [0u16];
    f32_to_u16_simd_dispatch(&[ks[i] as f32 / 256.0], &mut one, 65535.0, 1);
    assert!(out[i] == if i < n { one[0] } else { 0 }, "row equals its pixels");
});

// kind: proof
harness!(c22_integer_samples_survive_u8, unwind = 4, {
    // integer -> float -> 8-bit output gives back the integer, wherever the pixel is.
    let (x, y) = (vrange(0, 31), vrange(0, 31));
    let k = vrange(0, 255) as i32;
    let mut f = [0f32];
    modular_to_float_32bit_simd_dispatch(&[k], &mut f, 1.0 / ((1u64 << 8) - 1) as f32, 1);
    let mut out = [0u8];
    f32_to_u8_simd_dispatch(&f, &mut out, 255.0, (x, y), 0, 1);
    assert!(out[0] as i32 == k, "8-bit sample survives");
});

// kind: proof
harness!(c22_integer_samples_survive_u16, unwind = 4, {
    let k = vrange(0, 65535) as i32;
    let mut f = [0f32];
    modular_to_float_32bit_simd_dispatch(&[k], &mut f, 1.0 / ((1u64 << 16) - 1) as f32, 1);
    let mut out = [0u16];
    f32_to_u16_simd_dispatch(&f, &mut out, 65535.0, 1);
    assert!(out[0] as i32 == k, "16-bit sample survives");
});

// kind: proof
harness!(c22_f32_to_u16, unwind = 4, {
    let max = 65535f32;
    let v: f32 = vany();
    let mut out = [0u16, 77];
    f32_to_u16_simd_dispatch(&[v], &mut out, max, 1);
    let o = out[0] as f32;
    if v.is_nan() || v <= 0.0 {
        assert!(out[0] == 0, "negative and NaN samples become 0");
    } else if v >= 1.0 {
        assert!(o == max, "large samples saturate");
    } else {
        assert!((o - v * max).abs() <= 0.5, "nearest integer");
    }
    assert!(out[1] == 77, "nothing after the requested pixels is written");
});

// kind: proof
harness!(c22_i32_to_u8, unwind = 4, {
    let bd = vrange(1, 8) as u32;
    let mult = (255 / ((1u32 << bd) - 1)) as i32;
    let input = [vany::<i32>(), vany(), 0];
    vassume(input[0].unsigned_abs() <= 1 << 20 && input[1].unsigned_abs() <= 1 << 20);
    let mut out = [0u8, 0, 77];
    let maxv = vrange(1, 255) as i32;
    i32_to_u8_simd_dispatch(&input, &mut out, mult, maxv, 2);
    let i = vrange(0, 1);
    let want = (input[i] as i64 * mult as i64).clamp(0, maxv as i64);
    assert!(out[i] as i64 == want, "scaled and clamped");
    assert!(out[2] == 77, "nothing after the requested pixels is written");
});

// kind: proof
harness!(c22_custom_float_to_f32, unwind = 26, {
    let exp_bits = vrange(2, 8) as u32;
    let bits = vrange(3, 32) as u32;
    vassume(bits >= exp_bits + 3 && bits - exp_bits - 1 <= 23);
    let depth = BitDepth::verif_float(bits, exp_bits);
    let v: u32 = vany();
    vassume(bits == 32 || v < 1 << bits);
    let mut out = [0f32];
    int_to_float(&[v as i32], &mut out, &depth, 1);
    let mb = bits - exp_bits - 1;
    let neg = v >> (bits - 1) & 1 == 1;
    let e = (v >> mb) & ((1 << exp_bits) - 1);
    let m = v & ((1u32 << mb) - 1);
    let got = out[0];
    assert!(got.is_sign_negative() == neg, "sign");
    if e == (1 << exp_bits) - 1 {
        assert!(if m == 0 { got.is_infinite() } else { got.is_nan() }, "infinity and NaN");
    } else {
        // value = M * 2^(max(e,1) - bias - mb), exactly representable in f32.
        let big = if e == 0 { m } else { m + (1 << mb) };
        let p = (if e == 0 { 1 } else { e }) as i64 - ((1i64 << (exp_bits - 1)) - 1) - mb as i64;
        let scale = f64::from_bits(((1023 + p) as u64) << 52);
        let want = big as f64 * scale;
        assert!(got.abs() as f64 == want, "exact value");
    }
    vcover!(e == 0 && m == 1 && exp_bits == 5, "subnormal");
});
