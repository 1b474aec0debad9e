// C28: the areas around groups tile the image, and each can be rendered from the groups around it.
#[allow(unused_imports)]
use crate::verif::{harness, vany, vassume, vcover, vrange};

/// A frame of groups of `gs` samples with a border, which is at most half a group.
#[derive(Clone, Copy)]
struct Frame {
    size: usize,
    gs: usize,
    b: usize,
    n: usize,
}
fn any_frame() -> Frame {
    let lg = vrange(5, 12);
    let gs = 1usize << lg;
    let size = vrange(1, 1 << 30);
    let b = vrange(0, 1 << 11);
    vassume(2 * b <= gs);
    Frame { size, gs, b, n: (size + gs - 1) >> lg }
}
/// The columns (or rows) that group `g` renders for `range`, when the other direction has just one group.
fn area(f: &Frame, g: usize, range: Range<u8>, across: bool) -> (usize, usize) {
    let start = g * f.gs;
    let len = if f.size - start < f.gs { f.size - start } else { f.gs };
    let turn = |p: (usize, usize)| if across { (p.1, p.0) } else { p };
    let rect = Rect { origin: turn((start, 0)), size: turn((len, 8)) };
    let pick = |r: Range<u8>, o: Range<u8>| if across { (o, r) } else { (r, o) };
    let (xr, yr) = pick(range, 0..3);
    match ready_image_area(rect, turn((g, 0)), turn((f.n, 1)), turn((f.size, 8)), turn((f.b, 0)), xr, yr) {
        None => (0, 0),
        Some(r) => {
            let other = (turn(r.origin).1, turn(r.size).1);
            assert!(other.0 == 0 && other.1 == 8, "all of the other direction");
            let o = turn(r.origin).0;
            (o, o + turn(r.size).0)
        }
    }
}
fn has(a: (usize, usize), p: usize) -> bool {
    a.0 <= p && p < a.1
}
fn tiles(across: bool) {
    let f = any_frame();
    let g = vrange(0, 1 << 25);
    vassume(g < f.n);
    let p = vrange(0, (1 << 30) - 1);
    vassume(p < f.size);
    let before = area(&f, g, 0..1, across);
    let own = area(&f, g, 1..2, across);
    let after = area(&f, g, 2..3, across);
    vcover!(g + 1 == f.n && has(before, p) && f.size - p > f.b, "case 1");
    vcover!(g > 0 && g + 1 < f.n && has(own, p), "case 2");
    // No sample twice, none outside the image.
    assert!(has(before, p) as u8 + has(own, p) as u8 + has(after, p) as u8 <= 1, "areas of a group are disjoint");
    assert!(before.1 <= f.size && own.1 <= f.size && after.1 <= f.size, "areas are within the image");
    // Neighbours agree on the area between them.
    if g + 1 < f.n {
        let next = area(&f, g + 1, 0..1, across);
        assert!(has(after, p) == has(next, p), "the area between two groups");
    }
    // Every sample of the group is in one of its areas, or of the area after the next group if that is narrow.
    let start = g * f.gs;
    if p >= start && (p - start) < f.gs {
        assert!(has(before, p) || has(own, p) || has(after, p), "areas cover the group");
    }
    // Ranges of areas are what their parts are together.
    let (from, to) = [(0, 2), (1, 3), (0, 3)][vrange(0, 2)];
    let all = area(&f, g, from..to, across);
    let parts = (from == 0 && has(before, p)) || has(own, p) || (to == 3 && has(after, p));
    assert!(has(all, p) == parts, "areas that are rendered at once");
}
// kind: proof(all sizes up to 2^30, groups of 32 to 4096 samples, all groups and borders up to half a group, by columns)
harness!(c28_areas_tile_columns, unwind = 2, { tiles(false) });
// kind: proof(the same, by rows)
harness!(c28_areas_tile_rows, unwind = 2, { tiles(true) });

fn sufficient(across: bool) {
    let f = any_frame();
    let g = vrange(0, 1 << 25);
    vassume(g < f.n);
    let from = vrange(0, 2) as u8;
    let to = vrange(1, 3) as u8;
    vassume(from < to);
    let a = area(&f, g, from..to, across);
    let start = g * f.gs;
    let end = if f.size - start < f.gs { f.size } else { start + f.gs };
    if a.0 < a.1 {
        // What is read around the area comes from groups that are ready: the part before the group
        // only with the previous one, the part after it only with the next one.
        let reads = (if a.0 < f.b { 0 } else { a.0 - f.b }, if a.1 + f.b > f.size { f.size } else { a.1 + f.b });
        assert!(from == 0 || reads.0 >= start, "does not need the previous group");
        assert!(to == 3 || reads.1 <= end, "does not need the next group");
        // Of the groups around, only two borders are kept.
        assert!(reads.0 >= start || start - reads.0 <= 2 * f.b, "kept of the previous group");
        assert!(reads.1 <= end || reads.1 - end <= 2 * f.b, "kept of the next group");
        // Reflections at an edge only happen in areas that end there.
        assert!(a.0 == 0 || a.0 >= f.b, "reaches the first sample or does not need what is before it");
        assert!(a.1 == f.size || a.1 + f.b <= f.size, "reaches the last sample or does not need what is after it");
        vcover!((from == 1) & (to == 3), "case 3");
        // Row buffers have room for it.
        assert!(a.1 - a.0 <= f.gs + 3 * f.b, "room");
    }
}
// kind: proof(all sizes up to 2^30, groups of 32 to 4096 samples, all groups and borders up to half a group, by columns)
harness!(c28_areas_sufficient_columns, unwind = 2, { sufficient(false) });
// kind: proof(the same, by rows)
harness!(c28_areas_sufficient_rows, unwind = 2, { sufficient(true) });

// kind: proof(all masks)
harness!(c28_ready_rects, unwind = 5, {
    let m: [[bool; 3]; 3] = [[vany(), vany(), vany()], [vany(), true, vany()], [vany(), vany(), vany()]];
    let ready = [m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]];
    let (x, y) = (vrange(0, 2) as u8, vrange(0, 2) as u8);
    let mut n = 0;
    let ok = foreach_ready_rect(ready, |xr, yr| {
        if xr.contains(&x) && yr.contains(&y) {
            n += 1;
        }
        Ok(())
    });
    assert!(ok.is_ok());
    vcover!(n == 0, "case 4");
    vcover!(n == 1 && x == 2 && y == 0, "case 5");
    assert!(n == if m[y as usize][x as usize] { 1 } else { 0 }, "what is ready is rendered, once");
});
