// C09: file signatures.
#[allow(unused_imports)]
use crate::verif::{harness, vany, vassume, vcover, vok, vrange};

const CS: [u8; 2] = [0xff, 0x0a];
const BOX: [u8; 12] = [0, 0, 0, 0x0c, 0x4a, 0x58, 0x4c, 0x20, 0x0d, 0x0a, 0x87, 0x0a];

// kind: proof
harness!(c09_signature, unwind = 16, {
    let data: [u8; 14] = vany();
    let n = vrange(0, 14);
    let r = check_signature_internal(&data[..n]);
    let pre = |sig: &[u8]| {
        let mut i = 0;
        while i < sig.len() && i < n {
            if sig[i] != data[i] {
                return false;
            }
            i += 1;
        }
        true
    };
    let (cs, bx) = (pre(&CS), pre(&BOX));
    match r {
        Ok(Some(JxlSignatureType::Codestream)) => assert!(cs && n >= 2, "codestream"),
        Ok(Some(JxlSignatureType::Container)) => assert!(bx && n >= 12, "container"),
        Ok(None) => assert!(!cs && !bx, "neither"),
        Err(Error::OutOfBounds(k)) => {
            assert!((cs && n < 2) || (bx && n < 12), "a proper prefix of a signature");
            assert!(k == if cs { 2 - n } else { 12 - n }, "bytes that are missing");
        }
        Err(_) => assert!(false, "no other error"),
    }
    vcover!(cs && n == 1, "half a codestream signature");
    vcover!(bx && n == 11, "almost a container");
});

// kind: proof
harness!(c09_public, unwind = 16, {
    let data: [u8; 13] = vany();
    let n = vrange(0, 13);
    let w = check_signature_internal(&data[..n]);
    match check_signature(&data[..n]) {
        ProcessingResult::Complete { result } => assert!(matches!(w, Ok(t) if t == result), "complete"),
        ProcessingResult::NeedsMoreInput { size_hint, .. } => assert!(matches!(w, Err(Error::OutOfBounds(k)) if k == size_hint && k > 0), "more input"),
    }
});
