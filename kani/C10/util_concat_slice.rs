// C10: two slices read as one.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};

// kind: bounded(slices of at most 4 bytes)
harness!(c10_concat, unwind = 10, {
    let (a, b): ([u8; 4], [u8; 4]) = (vany(), vany());
    let (n, m) = (vrange(0, 4), vrange(0, 4));
    let mut c = ConcatSlice::new(&a[..n], &b[..m]);
    let at = |i: usize| if i < n { a[i] } else { b[i - n] };
    assert!(c.len() == n + m, "length");
    let k = vrange(0, 10);
    c.advance(k);
    let left = (n + m).saturating_sub(k);
    let (x, y) = c.remaining_slices();
    assert!(x.len() + y.len() == left, "what remains");
    let mut buf = [0u8; 8];
    let want = vrange(0, 8);
    let got = c.peek(&mut buf[..want]);
    assert!(got.len() == want.min(left), "as much as there is");
    if !got.is_empty() {
        let i = vrange(0, 7);
        vassume(i < got.len());
        assert!(got[i] == at(k + i), "bytes");
    }
});

// kind: sampled(slices of up to 300 bytes)
sampled!(c10_concat_sampled, {
    let a: Vec<u8> = (0..vrange(0, 300)).map(|i| i as u8).collect();
    let b: Vec<u8> = (0..vrange(0, 300)).map(|i| (i * 3 + 1) as u8).collect();
    let all: Vec<u8> = a.iter().chain(&b).copied().collect();
    let mut c = ConcatSlice::new(&a, &b);
    let mut pos = 0;
    for _ in 0..vrange(0, 10) {
        let want = vrange(0, 200);
        let left = &all[pos..];
        match vrange(0, 2) {
            0 => {
                let want = want.min(left.len());
                c.advance(want);
                pos += want;
            }
            1 => {
                let mut v = vec![9];
                let max = if vrange(0, 9) == 0 { None } else { Some(want) };
                let n = c.fill_vec(max, &mut v).unwrap();
                assert!(n == max.unwrap_or(usize::MAX).min(left.len()) && v[0] == 9 && v[1..] == left[..n], "appended bytes");
                pos += n;
            }
            _ => {
                let mut buf = vec![0; want];
                let got = c.peek(&mut buf);
                assert!(*got == left[..want.min(left.len())], "peeked bytes");
            }
        }
        let (x, y) = c.remaining_slices();
        assert!([x, y].concat() == all[pos..], "what remains");
    }
});
