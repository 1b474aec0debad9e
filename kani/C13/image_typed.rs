// C13: typed images behave as arrays of rows of samples.
#[allow(unused_imports)]
use crate::verif::{sampled, vany, vassume, vrange};
#[cfg(not(kani))]
mod model {
    use std::panic::{AssertUnwindSafe, catch_unwind};

    use super::*;
    fn panics(f: impl FnOnce()) -> bool {
        catch_unwind(AssertUnwindSafe(f)).is_err()
    }
    pub fn run<T: ImageDataType>(val: fn() -> T) {
        let (w, h) = (vrange(0, 40), vrange(0, 6));
        let v0 = val();
        let mut img = Image::<T>::new_with_value((w, h), v0).unwrap();
        let (w, h) = if w == 0 || h == 0 { (0, 0) } else { (w, h) };
        let mut m = vec![vec![v0; w]; h];
        assert!(img.size() == (w, h), "size");
        for _ in 0..vrange(0, 6) {
            let (ox, oy) = (vrange(0, w + 1), vrange(0, h + 1));
            let (sx, sy) = (vrange(0, w + 1), vrange(0, h + 1));
            let r = Rect { origin: (ox, oy), size: (sx, sy) };
            let ok = (ox + sx <= w && oy + sy <= h) || sx == 0 || sy == 0;
            let op = vrange(0, 5);
            if !ok && op <= 1 {
                assert!(panics(|| { img.get_rect(r); }) && panics(|| { img.get_rect_mut(r); }), "rectangles outside are refused");
                continue;
            }
            let ssz = if sx == 0 || sy == 0 { (0, 0) } else { (sx, sy) };
            match op {
                0 => {
                    let q = img.get_rect(r);
                    assert!(q.size() == ssz, "size of a rectangle");
                    for y in 0..ssz.1 {
                        assert!(q.row(y) == &m[oy + y][ox..ox + sx], "pixels of a rectangle");
                    }
                    assert!(panics(|| { q.row(ssz.1); }), "rows outside are refused");
                    let all: Vec<T> = q.iter().collect();
                    assert!(all.len() == ssz.0 * ssz.1);
                    if ssz != (0, 0) {
                        let (ix, iy) = (vrange(0, sx - 1), vrange(0, sy - 1));
                        let i = q.rect(Rect { origin: (ix, iy), size: (sx - ix, sy - iy) });
                        assert!(i.row(0) == &m[oy + iy][ox + ix..ox + sx], "rectangle of a rectangle");
                    }
                }
                1 => {
                    let v = val();
                    let mut q = img.get_rect_mut(r);
                    assert!(q.size() == ssz);
                    for y in 0..ssz.1 {
                        q.row(y).fill(v);
                        m[oy + y][ox..ox + sx].fill(v);
                    }
                }
                2 if h >= 2 => {
                    let (a, b) = (vrange(0, h - 1), vrange(0, h - 1));
                    if a == b {
                        assert!(panics(|| { img.distinct_rows_mut([a, b]); }), "the same row twice is refused");
                    } else {
                        let [ra, rb] = img.distinct_rows_mut([a, b]);
                        assert!(ra == &m[a][..] && rb == &m[b][..], "distinct rows");
                        ra.swap_with_slice(rb);
                        m.swap(a, b);
                    }
                }
                3 => {
                    let v = val();
                    img.fill(v);
                    m.iter_mut().for_each(|r| r.fill(v));
                }
                4 => {
                    let mut c = img.try_clone().unwrap();
                    c.fill(val());
                    img = Image::from_raw(img.try_clone().unwrap().into_raw());
                }
                _ => {
                    if h > 0 {
                        let y = vrange(0, h - 1);
                        let v = val();
                        let x = vrange(0, w - 1);
                        img.row_mut(y)[x] = v;
                        m[y][x] = v;
                    }
                }
            }
            for y in 0..h {
                assert!(img.row(y) == &m[y][..], "contents");
                assert!(img.row(y).as_ptr() as usize % std::mem::align_of::<T>() == 0, "alignment");
            }
            assert!(panics(|| { img.row(h); }), "rows outside are refused");
        }
    }
}
// kind: sampled(images up to 40x6 of 1-, 2-, 4- and 8-byte samples; up to 6 operations)
sampled!(c13_image_model_sampled, {
    match vrange(0, 3) {
        0 => model::run::<u8>(|| vany()),
        1 => model::run::<i16>(|| vany()),
        2 => model::run::<f32>(|| vany::<u16>() as f32),
        _ => model::run::<f64>(|| vany::<u32>() as f64),
    }
});
