// C13: raw image memory.
use super::super::rect::image_rect::any_rect;
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};

const L: usize = 40;
/// A buffer of any geometry over `mem`.
fn any_buffer(mem: &mut [u8; L]) -> (RawImageBuffer, usize, usize, usize) {
    let (rows, bpr, stride) = (vrange(1, 4), vrange(1, 12), vrange(1, 16));
    vassume(stride >= bpr && (rows - 1) * stride + bpr <= L);
    // SAFETY: the assumption above keeps all rows inside `mem`.
    (unsafe { RawImageBuffer::new_from_ptr(mem.as_mut_ptr(), rows, bpr, stride) }, rows, bpr, stride)
}

// kind: bounded(buffers of 40 bytes, up to 4 rows)
harness!(c13_rows_and_rects, unwind = 5, {
    let mut mem: [u8; L] = vany();
    let orig = mem;
    let (b, rows, bpr, stride) = any_buffer(&mut mem);
    assert!(b.byte_size() == (bpr, rows) && b.minimum_allocation_size() == (rows - 1) * stride + bpr, "sizes");
    let r = any_rect(16);
    vassume(r.origin.0 + r.size.0 <= bpr && r.origin.1 + r.size.1 <= rows);
    let mut s = b.rect(r);
    if r.size.0 == 0 || r.size.1 == 0 {
        assert!(s.byte_size() == (0, 0), "empty");
        return;
    }
    assert!(s.byte_size() == r.size, "size of a sub-rectangle");
    let y = vrange(0, 3);
    vassume(y < r.size.1);
    let x = vrange(0, 15);
    vassume(x < r.size.0);
    let at = (r.origin.1 + y) * stride + r.origin.0 + x;
    // SAFETY: nothing else borrows `mem` here.
    unsafe {
        assert!(s.row(y).len() == r.size.0 && s.row(y)[x] == orig[at], "sub-rectangle of the same pixels");
        let v: u8 = vany();
        let row = s.row_mut(y);
        assert!(row.len() == r.size.0, "row length");
        row[x] = v;
        let k = vrange(0, L - 1);
        assert!(mem[k] == if k == at { v } else { orig[k] }, "a write changes exactly its own sample");
    }
});
// kind: bounded(buffers of 40 bytes, up to 4 rows)
harness!(c13_distinct_rows, unwind = 5, {
    let mut mem: [u8; L] = vany();
    let orig = mem;
    let (mut b, rows, bpr, stride) = any_buffer(&mut mem);
    let i = [vrange(0, 3), vrange(0, 3), vrange(0, 3)];
    vassume(i[0] < rows && i[1] < rows && i[2] < rows && i[0] != i[1] && i[1] != i[2] && i[0] != i[2]);
    let x = vrange(0, 11);
    vassume(x < bpr);
    // SAFETY: nothing else borrows `mem` here.
    let r = unsafe { b.distinct_rows_mut(i) };
    let mut k = 0;
    while k < 3 {
        assert!(r[k].len() == bpr && r[k][x] == orig[i[k] * stride + x], "the requested rows, in order");
        k += 1;
    }
    r[1][x] = !r[1][x];
    assert!(r[0][x] == orig[i[0] * stride + x] && r[2][x] == orig[i[2] * stride + x], "distinct rows do not overlap");
});
// kind: proof
harness!(c13_alignment, {
    let (p, bpr, stride, rows) = (vrange(0, 1 << 20), vrange(0, 1 << 20), vrange(0, 1 << 20), vrange(0, 100));
    let b = RawImageBuffer { buf: std::ptr::without_provenance_mut(p), bytes_per_row: bpr, num_rows: rows, bytes_between_rows: stride };
    for a in [1usize, 2, 4, 8] {
        let want = p % a == 0 && bpr % a == 0 && stride % a == 0;
        assert!(b.is_aligned(a) == want, "alignment of every row");
    }
});

#[cfg(kani)]
unsafe fn no_memory(_: Layout) -> *mut u8 {
    null_mut()
}
// kind: proof
harness!(#[kani::stub(std::alloc::alloc_zeroed, no_memory)] c13_huge_images, unwind = 5, {
    let (w, h): (usize, usize) = (vany(), vany());
    #[cfg(not(kani))]
    vassume(w == 0 || h == 0 || w.checked_mul(h).is_none_or(|n| n > 1 << 44));
    // SAFETY: no source is given.
    let r = unsafe { RawImageBuffer::try_allocate((w, h), None) };
    match vok(r) {
        Some(b) => assert!((w == 0 || h == 0) && b.byte_size() == (0, 0), "only empty images need no memory"),
        None => assert!(w > 0 && h > 0, "an image that cannot be allocated is an error"),
    }
});
// kind: bounded(images of at most 3 rows of 70 bytes)
harness!(c13_allocate, unwind = 5, {
    let (w, h) = (vrange(1, 70), vrange(1, 3));
    // SAFETY: no source is given; the buffer is released below.
    unsafe {
        let mut b = vok(RawImageBuffer::try_allocate((w, h), None)).unwrap();
        assert!(b.byte_size() == (w, h) && b.bytes_between_rows % 64 == 0 && b.bytes_between_rows >= w && b.buf as usize % CACHE_LINE_BYTE_SIZE == 0, "geometry");
        let (x, y) = (vrange(0, 69), vrange(0, 2));
        vassume(x < w && y < h);
        assert!(b.row(y)[x] == 0, "cleared");
        b.row_mut(y)[x] = 7;
        let mut c = vok(b.try_clone()).unwrap();
        assert!(c.row(y)[x] == 7 && c.buf != b.buf, "copied");
        b.row_mut(y)[x] = 8;
        assert!(c.row(y)[x] == 7, "a copy is independent");
        c.deallocate();
        b.deallocate();
    }
});
