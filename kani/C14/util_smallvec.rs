// C14: SmallVec behaves as a Vec, and creates and destroys every element exactly once.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};

static mut LIVE: i32 = 0;
static mut DOUBLE: bool = false;
/// An element that counts its own life.
struct El {
    v: u8,
    alive: u8,
}
impl El {
    fn new(v: u8) -> El {
        unsafe { LIVE += 1 };
        El { v, alive: 1 }
    }
}
impl Drop for El {
    fn drop(&mut self) {
        unsafe {
            DOUBLE |= self.alive != 1;
            LIVE -= 1;
        }
        self.alive = 2;
    }
}
/// Heap storage that keeps to the stack: the contract of SmallVecHeapStorage without an allocator.
struct Arr {
    vals: u32,
    len: usize,
}
impl Drop for Arr {
    fn drop(&mut self) {
        unsafe { LIVE -= self.len as i32 };
    }
}
impl SmallVecHeapStorage<El> for Arr {
    const STACK_ONLY: bool = false;
    fn as_slice(&self) -> &[El] {
        unreachable!()
    }
    fn as_slice_mut(&mut self) -> &mut [El] {
        unreachable!()
    }
    fn with_capacity(_: usize) -> Arr {
        Arr { vals: 0, len: 0 }
    }
    fn push(&mut self, v: El) {
        assert!(v.alive == 1 && self.len < 4, "moves live elements");
        self.vals |= (v.v as u32) << (8 * self.len as u32);
        self.len += 1;
        std::mem::forget(v);
    }
    fn extend<I: Iterator<Item = El>>(&mut self, iter: I) {
        for v in iter {
            self.push(v);
        }
    }
}
fn check<H: SmallVecHeapStorage<El>>(s: &SmallVec<El, 2, H>, m: &[u8; 6], n: usize) {
    assert!(s.len() == n && s.is_empty() == (n == 0), "length");
    assert!(s[..].len() == n, "slice");
    let i = vrange(0, 5);
    if i < n {
        assert!(s[i].v == m[i] && s[i].alive == 1, "elements in order");
    }
    assert!(unsafe { LIVE == n as i32 && !DOUBLE }, "every element is owned exactly once");
}
/// Elements first, first+1, ... with an exact, loose or missing upper bound on their number.
struct It {
    next: u8,
    end: u8,
    hint: u8,
}
impl Iterator for It {
    type Item = El;
    fn next(&mut self) -> Option<El> {
        if self.next == self.end {
            return None;
        }
        self.next += 1;
        Some(El::new(self.next - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = (self.end - self.next) as usize;
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, Some(n + 1)),
            2 => (0, Some(usize::MAX)),
            _ => (0, None),
        }
    }
}
fn history(ops: usize) {
    unsafe {
        LIVE = 0;
        DOUBLE = false;
    }
    let mut s: SmallVec<El, 2> = SmallVec::new();
    let mut m = [0u8; 6];
    let mut n = 0usize;
    let mut t = 0;
    while t < ops {
        let v = (t as u8) * 16;
        let k = vrange(0, 3);
        match k {
            0 => {
                s.push(El::new(v));
                m[n] = v;
                n += 1;
            }
            _ => {
                let c = vrange(0, 2);
                let hint: u8 = vany();
                s.extend(It { next: v, end: v + c as u8, hint: hint & 3 });
                let mut j = 0;
                while j < c {
                    m[n] = v + j as u8;
                    n += 1;
                    j += 1;
                }
            }
        }
        if n > 0 {
            let w: u8 = vany();
            s[n - 1].v = w;
            m[n - 1] = w;
        }
        check(&s, &m, n);
        t += 1;
    }
    drop(s);
    assert!(unsafe { LIVE == 0 && !DOUBLE }, "every element is destroyed exactly once");
}
// kind: sampled(up to 6 elements in 3 operations)
sampled!(c14_history_sampled, { history(3) });

/// n elements 0..n inline, n <= 2.
fn inline(n: usize) -> SmallVec<El, 2, Arr> {
    unsafe {
        LIVE = 0;
        DOUBLE = false;
    }
    let mut s: SmallVec<El, 2, Arr> = SmallVec::new();
    if let SmallVec::Stack { len, data } = &mut s {
        let mut i = 0;
        while i < n {
            data[i].write(El::new(i as u8));
            i += 1;
        }
        *len = n;
    }
    s
}
fn ends(s: SmallVec<El, 2, Arr>, n: usize) {
    let i = vrange(0, 3);
    match &s {
        SmallVec::Stack { len, .. } => {
            assert!(*len == n && s.len() == n && n <= 2 && s.is_empty() == (n == 0), "length");
            if i < n {
                assert!(s[i].v == i as u8 && s[i].alive == 1, "elements in order");
            }
        }
        SmallVec::Heap(a) => {
            assert!(a.len == n, "moved length");
            if i < n {
                assert!(a.vals.to_le_bytes()[i] == i as u8, "moved elements in order");
            }
        }
    }
    assert!(unsafe { LIVE == n as i32 && !DOUBLE }, "owned once");
    drop(s);
    assert!(unsafe { LIVE == 0 && !DOUBLE }, "destroyed once");
}
// One operation from every inline state: the induction step; after a move the storage's own operations take over.
// kind: proof
harness!(c14_push, unwind = 6, {
    let n = vrange(0, 2);
    let mut s = inline(n);
    s.push(El::new(n as u8));
    ends(s, n + 1);
});
// kind: proof
harness!(c14_extend, unwind = 6, {
    let n = vrange(0, 2);
    let c = vrange(0, 2);
    let mut s = inline(n);
    let hint: u8 = vany();
    s.extend(It { next: n as u8, end: (n + c) as u8, hint: hint & 3 });
    ends(s, n + c);
});

#[cfg(not(kani))]
mod big {
    use std::sync::Arc;

    use super::*;
    pub fn run() {
        let a = Arc::new(0u8);
        let mut s: SmallVec<(Arc<u8>, u32), 8> = SmallVec::new();
        let mut m: Vec<u32> = vec![];
        for t in 0..vrange(0, 12) as u32 {
            match vrange(0, 3) {
                0 => {
                    s.push((a.clone(), t));
                    m.push(t);
                }
                1 => {
                    let k = vrange(0, 9) as u32;
                    s.extend((0..k).map(|i| (a.clone(), i)));
                    Extend::extend(&mut m, 0..k);
                }
                2 => {
                    let k = vrange(0, 9) as u32;
                    s.extend((0..k).filter(|i| i % 3 != 1).map(|i| (a.clone(), i)));
                    Extend::extend(&mut m, (0..k).filter(|i| i % 3 != 1));
                }
                _ => {
                    s.reverse();
                    m.reverse();
                }
            }
            assert!(s.iter().map(|x| x.1).eq(m.iter().copied()) && s.len() == m.len() && s.is_empty() == m.is_empty(), "contents");
            assert!(Arc::strong_count(&a) == 1 + m.len(), "owned once");
        }
        let c: SmallVec<u32, 8> = m.iter().copied().collect();
        assert!(c[..] == m[..], "collected");
        drop(s);
        assert!(Arc::strong_count(&a) == 1, "destroyed once");
    }
}
// kind: sampled(capacity 8, up to 12 operations)
sampled!(c14_large_sampled, { big::run() });
