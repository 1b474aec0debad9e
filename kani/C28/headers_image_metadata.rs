// C28: orientations move every sample to the place that the standard gives it.
#[allow(unused_imports)]
use crate::verif::{harness, vany, vassume, vcover, vrange};

fn any_orientation() -> (usize, Orientation) {
    let i = vrange(0, 7);
    let o = match i {
        0 => Orientation::Identity,
        1 => Orientation::FlipHorizontal,
        2 => Orientation::Rotate180,
        3 => Orientation::FlipVertical,
        4 => Orientation::Transpose,
        5 => Orientation::Rotate90Cw,
        6 => Orientation::AntiTranspose,
        _ => Orientation::Rotate90Ccw,
    };
    (i, o)
}
fn inside(p: (usize, usize), r: &Rect) -> bool {
    p.0 >= r.origin.0 && p.0 - r.origin.0 < r.size.0 && p.1 >= r.origin.1 && p.1 - r.origin.1 < r.size.1
}

// kind: proof(all orientations, sizes up to 2^30 and positions)
harness!(c28_display_pixel, unwind = 2, {
    let (i, o) = any_orientation();
    let size = (vrange(1, 1 << 30), vrange(1, 1 << 30));
    let (x, y) = (vrange(0, (1 << 30) - 1), vrange(0, (1 << 30) - 1));
    vassume(x < size.0 && y < size.1);
    let p = o.display_pixel((x, y), size);
    vcover!(i == 3, "case 1");
    vcover!(i == 6, "case 2");
    // Exif: the first row (column) of the frame is shown at the top, bottom, left or right.
    let (fx, fy) = (size.0 - 1 - x, size.1 - 1 - y);
    let want = match i {
        0 => (x, y),
        1 => (fx, y),
        2 => (fx, fy),
        3 => (x, fy),
        4 => (y, x),
        5 => (fy, x),
        6 => (fy, fx),
        _ => (y, fx),
    };
    assert!(p.0 == want.0 && p.1 == want.1, "place");
    let shown = o.map_size(size);
    assert!(shown.0 == if i >= 4 { size.1 } else { size.0 }, "width");
    assert!(shown.1 == if i >= 4 { size.0 } else { size.1 }, "height");
    assert!(p.0 < shown.0 && p.1 < shown.1, "inside what is shown");
    assert!(o.is_transposing() == (i >= 4), "transposes");
    if x + 1 < size.0 {
        let q = o.display_pixel((x + 1, y), size);
        let d = o.display_row_step();
        assert!(q.0 as isize == p.0 as isize + d.0 && q.1 as isize == p.1 as isize + d.1, "next in the row");
    }
});
// kind: proof(all orientations, sizes up to 2^30, rectangles and positions)
harness!(c28_display_rect, unwind = 2, {
    let (i, o) = any_orientation();
    let size = (vrange(1, 1 << 30), vrange(1, 1 << 30));
    let r = Rect { origin: (vrange(0, 1 << 30), vrange(0, 1 << 30)), size: (vrange(0, 1 << 30), vrange(0, 1 << 30)) };
    vassume(r.origin.0 + r.size.0 <= size.0 && r.origin.1 + r.size.1 <= size.1);
    let d = o.display_rect(r, size);
    let shown = o.map_size(size);
    assert!(d.origin.0 + d.size.0 <= shown.0 && d.origin.1 + d.size.1 <= shown.1, "inside what is shown");
    let p = (vrange(0, (1 << 30) - 1), vrange(0, (1 << 30) - 1));
    vassume(p.0 < size.0 && p.1 < size.1);
    vcover!(i == 5 && inside(p, &r), "case 3");
    vcover!(i == 6 && !inside(p, &r), "case 4");
    assert!(inside(p, &r) == inside(o.display_pixel(p, size), &d), "the samples of the rectangle and no others");
});
