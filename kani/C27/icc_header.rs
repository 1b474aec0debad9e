// C27: the predicted header of an ICC profile.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};

/// Appendix E.4.3 of the format.
pub fn want(i: usize, size: u32, h: &[u8; 128]) -> u8 {
    let table = |p: usize, s: &[u8]| if i >= p && i < p + s.len() { Some(s[i - p]) } else { None };
    if i < 4 {
        return (size >> (8 * (3 - i))) as u8;
    }
    if i == 8 {
        return 4;
    }
    if let Some(x) = table(12, b"mntrRGB XYZ ") {
        return x;
    }
    if let Some(x) = table(36, b"acsp") {
        return x;
    }
    if i == 41 {
        return if h[40] == 65 { 80 } else if h[40] == 77 { 83 } else { 0 };
    }
    if i == 42 || i == 43 {
        let s: &[u8; 4] = match (h[40], h[41]) {
            (65, _) => b"APPL",
            (77, _) => b"MSFT",
            (83, 71) => b"SGI ",
            (83, 85) => b"SUNW",
            _ => &[0; 4],
        };
        return s[i - 40];
    }
    if let Some(x) = table(70, &[246, 214, 0, 1]) {
        return x;
    }
    if let Some(x) = table(78, &[211, 45]) {
        return x;
    }
    if i >= 80 && i < 84 { h[i - 76] } else { 0 }
}

// kind: proof
harness!(c27_header, unwind = 13, {
    let h: [u8; 128] = vany();
    let (i, size) = (vrange(0, 127), vany::<u32>());
    assert!(predict_header(i, size, &h) == want(i, size, &h), "predicted header byte");
});
