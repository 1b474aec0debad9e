// C13: rectangles.
#[allow(unused_imports)]
use crate::verif::{harness, vany, vassume, vcover, vok, vrange};
const M: usize = 1 << 40;
pub(crate) fn any_rect(m: usize) -> Rect {
    Rect { origin: (vrange(0, m), vrange(0, m)), size: (vrange(0, m), vrange(0, m)) }
}
pub(crate) fn inside(r: &Rect, x: usize, y: usize) -> bool {
    x >= r.origin.0 && x - r.origin.0 < r.size.0 && y >= r.origin.1 && y - r.origin.1 < r.size.1
}
// kind: proof
harness!(c13_rect_algebra, {
    let (r, o) = (any_rect(M), any_rect(M));
    let size = (vrange(0, M), vrange(0, M));
    let (x, y) = (vrange(0, 2 * M), vrange(0, 2 * M));
    assert!(r.end() == (r.origin.0 + r.size.0, r.origin.1 + r.size.1), "end");
    let c = r.clip(size);
    assert!(inside(&c, x, y) == (inside(&r, x, y) && x < size.0 && y < size.1), "clipping keeps exactly the points inside");
    if r.size.0 > 0 && r.size.1 > 0 && o.size.0 > 0 && o.size.1 > 0 {
        if inside(&r, x, y) && inside(&o, x, y) {
            assert!(r.intersects(&o), "rectangles with a common point intersect");
        }
        if r.intersects(&o) {
            let p = (r.origin.0.max(o.origin.0), r.origin.1.max(o.origin.1));
            assert!(inside(&r, p.0, p.1) && inside(&o, p.0, p.1), "rectangles that intersect have a common point");
        }
    }
    let b = r.to_byte_rect_sz(4);
    assert!(b.origin == (4 * r.origin.0, r.origin.1) && b.size == (4 * r.size.0, r.size.1), "byte rectangle");
    let (dx, dy) = (vrange(0, 3) as u8, vrange(0, 3) as u8);
    let d = r.downsample((dx, dy));
    assert!(d.origin == (r.origin.0 >> dx, r.origin.1 >> dy) && d.size == (r.size.0 >> dx, r.size.1 >> dy), "subsampled");
});
// kind: proof
harness!(c13_check_within, {
    let size = (vrange(0, M), vrange(0, M));
    let r = any_rect(M);
    vassume(r.origin.0 + r.size.0 <= size.0 && r.origin.1 + r.size.1 <= size.1);
    r.check_within(size);
});
