// C03: hybrid-integer codes.
#[allow(unused_imports)]
use crate::verif::{harness, tape_harness, vany, vassume, vcover, vok, vrange};
use crate::verif::tape::{any_tape, reader};

fn clog2(x: u32) -> usize {
    // smallest n with 2^n >= x
    let mut n = 0;
    while n < 6 && (1u32 << n) < x {
        n += 1;
    }
    n
}
fn any_config() -> HybridUint {
    let (se, m, l) = (vrange(0, 15) as u32, vrange(0, 15) as u32, vrange(0, 15) as u32);
    vassume(m + l <= se);
    HybridUint { split_token: 1 << se, split_exponent: se, msb_in_token: m, lsb_in_token: l }
}

// kind: proof
tape_harness!(c03_config, unwind = 8, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let la = vrange(5, 15);
    let r = vok(HybridUint::decode(la, &mut br));
    let se = s.read(clog2(la as u32 + 1)) as u32;
    let (mut m, mut l) = (0, 0);
    let mut bad = false;
    if se != la as u32 {
        m = s.read(clog2(se + 1)) as u32;
        if m > se {
            bad = true;
        } else {
            l = s.read(clog2(se - m + 1)) as u32;
            bad = m + l > se;
        }
    }
    if s.short || bad {
        assert!(r.is_none(), "truncated or inconsistent configurations are rejected");
    } else {
        assert!(r.is_some(), "valid configurations are accepted");
        let c = r.unwrap();
        assert!(c.split_exponent == se && c.split_token == 1 << se && c.msb_in_token == m && c.lsb_in_token == l, "configuration");
        assert!(br.total_bits_read() == s.pos, "bits");
        assert!(c.is_split_exponent_zero() == (se == 0) && c.split_token() == 1 << se, "accessors");
        assert!(c.is_config_420() == (se == 4 && m == 2 && l == 0), "fast-path test");
    }
    vcover!(!bad && !s.short && m == 2 && l == 1, "msb and lsb");
});

// kind: proof
tape_harness!(c03_value, unwind = 8, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    vassume(s.left >= 32);
    let c = any_config();
    let (se, m, l) = (c.split_exponent, c.msb_in_token, c.lsb_in_token);
    let tok: u32 = vany();
    let got = c.read(tok, &mut br);
    if tok < (1 << se) {
        assert!(got == tok && br.total_bits_read() == 0, "small tokens are their own value");
    } else {
        let n = (se - (m + l) + ((tok - (1 << se)) >> (m + l))) & 31;
        let extra = s.read(n as usize);
        let high = (1u64 << m) + ((tok >> l) as u64 % (1 << m));
        let want = ((((high << n) | extra) << l) | (tok as u64 % (1 << l))) as u32;
        assert!(got == want, "value");
        assert!(br.total_bits_read() == s.pos, "bits");
    }
    if c.is_config_420() {
        let mut br2 = reader(&crate::verif::Tape { t: u128::from_le_bytes(buf), left: s.left + s.pos, pos: 0, short: false }, &buf);
        let fast = HybridUint::read_config_420(tok, &mut br2);
        assert!(fast == got && br2.total_bits_read() == s.pos, "the 420 fast path is the general path");
    }
    vcover!(c.is_config_420() && tok == 40, "fast path");
});

// kind: proof
tape_harness!(c03_every_value_has_its_code, unwind = 40, {
    // Encoder of the format (not part of the decoder) followed by the real decoder.
    let c = any_config();
    let (se, m, l) = (c.split_exponent, c.msb_in_token, c.lsb_in_token);
    let v: u32 = vany();
    let (tok, n, bits) = if v < (1 << se) {
        (v, 0, 0u64)
    } else {
        let nb = 31 - v.leading_zeros();
        let mm = v - (1 << nb);
        (
            (1u32 << se) + ((nb - se) << (m + l)) + ((mm >> (nb - m)) << l) + (mm & ((1 << l) - 1)),
            nb - m - l,
            ((mm >> l) as u64) & ((1u64 << (nb - m - l)) - 1),
        )
    };
    let mut buf = [0u8; 16];
    let junk: u64 = vany();
    buf[..8].copy_from_slice(&(bits | if n < 64 { junk << n } else { 0 }).to_le_bytes());
    let t = crate::verif::Tape { t: u128::from_le_bytes(buf), left: 128, pos: 0, short: false };
    let mut br = reader(&t, &buf);
    let got = c.read(tok, &mut br);
    assert!(got == v, "decode(encode(v)) == v");
    assert!(br.total_bits_read() == n as usize, "exactly the extra bits are consumed");
    vcover!(v == u32::MAX, "largest value");
});
