// C11: orientation, animation, tone mapping, and the whole image header.
#[allow(unused_imports)]
use crate::headers::bit_depth::headers_bit_depth::depth_spec;
use crate::headers::color_encoding::headers_color_encoding as col;
use crate::headers::extra_channels::headers_extra_channels as ecs;
#[allow(unused_imports)]
use crate::headers::size::headers_size::{preview_spec, size_spec};
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};
#[allow(unused_imports)]
use crate::verif::{Rd, Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};

fn any_orientation() -> Orientation {
    use Orientation::*;
    [Identity, FlipHorizontal, Rotate180, FlipVertical, Transpose, Rotate90Cw, AntiTranspose, Rotate90Ccw][vrange(0, 7)]
}
/// Where the stored pixel (x, y) of a w x h image is displayed (EXIF orientation values).
fn shown(o: Orientation, x: usize, y: usize, w: usize, h: usize) -> (usize, usize) {
    match o as usize {
        1 => (x, y),
        2 => (w - 1 - x, y),
        3 => (w - 1 - x, h - 1 - y),
        4 => (x, h - 1 - y),
        5 => (y, x),
        6 => (h - 1 - y, x),
        7 => (h - 1 - y, w - 1 - x),
        _ => (y, w - 1 - x),
    }
}
const M: usize = 1 << 31;

// kind: proof
harness!(c11_orientation_pixel, {
    let o = any_orientation();
    let (w, h) = (vrange(1, M), vrange(1, M));
    let (x, y) = (vrange(0, M), vrange(0, M));
    vassume(x < w && y < h);
    let d = o.display_pixel((x, y), (w, h));
    assert!(d == shown(o, x, y, w, h), "display position");
    let m = o.map_size((w, h));
    assert!(m == if o as usize >= 5 { (h, w) } else { (w, h) } && o.is_transposing() == (o as usize >= 5), "display size");
    assert!(d.0 < m.0 && d.1 < m.1, "inside the displayed image");
    let (sx, sy) = o.display_row_step();
    if x + 1 < w {
        let e = o.display_pixel((x + 1, y), (w, h));
        assert!(e.0 as isize == d.0 as isize + sx && e.1 as isize == d.1 as isize + sy, "row step");
    }
});

// kind: proof
harness!(c11_orientation_rect, {
    let o = any_orientation();
    let (w, h) = (vrange(1, M), vrange(1, M));
    let (ox, oy, sx, sy) = (vrange(0, M), vrange(0, M), vrange(1, M), vrange(1, M));
    vassume(ox + sx <= w && oy + sy <= h);
    let r = o.display_rect(Rect { origin: (ox, oy), size: (sx, sy) }, (w, h));
    let m = o.map_size((w, h));
    assert!(r.origin.0 + r.size.0 <= m.0 && r.origin.1 + r.size.1 <= m.1, "inside the displayed image");
    assert!(r.size == o.map_size((sx, sy)), "size");
    let (x, y) = (vrange(0, M), vrange(0, M));
    vassume(x < w && y < h);
    let d = shown(o, x, y, w, h);
    let inside = x >= ox && x < ox + sx && y >= oy && y < oy + sy;
    let shown_inside = d.0 >= r.origin.0 && d.0 < r.origin.0 + r.size.0 && d.1 >= r.origin.1 && d.1 < r.origin.1 + r.size.1;
    assert!(inside == shown_inside, "the displayed rectangle is exactly the rectangle's pixels");
});

pub(crate) fn animation_spec<R: Rd>(s: &mut R) -> [u64; 4] {
    [
        s.sel([(0, 100), (0, 1000), (10, 1), (30, 1)]),
        s.sel([(0, 1), (0, 1001), (8, 1), (10, 1)]),
        s.sel([(0, 0), (3, 0), (16, 0), (32, 0)]),
        s.flag() as u64,
    ]
}
fn animation_dump(a: &Animation) -> [u64; 4] {
    [a.tps_numerator as u64, a.tps_denominator as u64, a.num_loops as u64, a.have_timecodes as u64]
}
// kind: proof
tape_harness!(c11_animation, unwind = 10, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let got = vok(Animation::read_unconditional(&(), &mut br, &Empty {}));
    let want = animation_spec(&mut s);
    if s.short {
        assert!(got.is_none(), "cut short");
    } else {
        let g = animation_dump(&got.unwrap());
        assert!(g[0] == want[0] && g[1] == want[1] && g[2] == want[2] && g[3] == want[3], "animation header");
        assert!(br.total_bits_read() == s.pos, "consumes exactly its bits");
    }
});

/// intensity target, black level, relative flag, linear-below threshold; None if not valid.
pub(crate) fn tone_spec<R: Rd>(s: &mut R) -> Option<(u32, u32, bool, u32)> {
    if s.flag() {
        return Some((255f32.to_bits(), 0, false, 0));
    }
    let i = s.half()?;
    let m = s.half()?;
    let r = s.flag();
    let l = s.half()?;
    if i <= 0.0 || m < 0.0 || m > i || l < 0.0 || (r && l > 1.0) {
        return None;
    }
    Some((i.to_bits(), m.to_bits(), r, l.to_bits()))
}
fn tone_dump(t: &ToneMapping) -> (u32, u32, bool, u32) {
    (t.intensity_target.to_bits(), t.min_nits.to_bits(), t.relative_to_max_display, t.linear_below.to_bits())
}
// kind: proof
tape_harness!(c11_tone_mapping, unwind = 12, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let got = vok(ToneMapping::read_unconditional(&(), &mut br, &Empty {}));
    let want = tone_spec(&mut s);
    if s.short {
        assert!(got.is_none(), "cut short");
        return;
    }
    match want {
        None => assert!(got.is_none(), "invalid tone mapping is rejected"),
        Some(w) => {
            assert!(got.is_some() && tone_dump(&got.unwrap()) == w, "tone mapping");
            assert!(br.total_bits_read() == s.pos, "consumes exactly its bits");
        }
    }
});

#[cfg(not(kani))]
mod whole {
    use super::*;
    use crate::bit_reader::BitReader;
    use crate::headers::transform_data::headers_transform_data as ctd;
    use crate::headers::{FileHeader, JxlHeader};
    use crate::verif::bits::{BitS, BitW};

    #[derive(PartialEq, Debug)]
    struct File {
        size: (u64, u64),
        orientation: u64,
        intrinsic: Option<(u64, u64)>,
        preview: Option<(u64, u64)>,
        animation: Option<[u64; 4]>,
        depth: (bool, u64, u64),
        sixteen: bool,
        ec: Vec<(ecs::Ec, Vec<u8>)>,
        xyb: bool,
        color: col::Kind,
        tone: (u32, u32, bool, u32),
        ctd: Vec<u32>,
    }
    /// Err(true): must be rejected; Err(false): not specified here.
    fn spec<R: Rd>(s: &mut R, skip: &mut dyn FnMut(&mut R, u64) -> bool) -> Result<File, bool> {
        if s.get(8) != 0xff || s.get(8) != 0x0a {
            return Err(true);
        }
        let size = size_spec(s);
        if size.0 > u32::MAX as u64 {
            return Err(true);
        }
        let mut f = File {
            size,
            orientation: 1,
            intrinsic: None,
            preview: None,
            animation: None,
            depth: (false, 8, 0),
            sixteen: true,
            ec: vec![],
            xyb: true,
            color: col::default_kind(),
            tone: (255f32.to_bits(), 0, false, 0),
            ctd: ctd::default(),
        };
        if !s.flag() {
            let extra = s.flag();
            if extra {
                f.orientation = s.get(3) + 1;
                if s.flag() {
                    let z = size_spec(s);
                    if z.0 > u32::MAX as u64 {
                        return Err(true);
                    }
                    f.intrinsic = Some(z);
                }
                if s.flag() {
                    f.preview = Some(preview_spec(s));
                }
                if s.flag() {
                    f.animation = Some(animation_spec(s));
                }
            }
            let (d, ok) = depth_spec(s);
            if !ok {
                return Err(true);
            }
            f.depth = d;
            f.sixteen = s.flag();
            let n = s.sel([(0, 0), (0, 1), (4, 2), (12, 1)]);
            for _ in 0..n {
                if s.is_short() {
                    return Err(true);
                }
                let mut name = vec![];
                let e = ecs::ec_spec(s, |s, n| {
                    for _ in 0..n {
                        if s.is_short() {
                            return false;
                        }
                        name.push(s.get(8) as u8);
                    }
                    true
                }).ok_or(true)?;
                f.ec.push((e, name));
            }
            f.xyb = s.flag();
            f.color = col::color_spec(s);
            match f.color {
                col::Kind::Valid(_) => {}
                col::Kind::Invalid => return Err(true),
                col::Kind::Open => return Err(false),
            }
            if extra {
                f.tone = tone_spec(s).ok_or(true)?;
            }
            let sel = s.u64f();
            let mut total = 0u64;
            for i in 0..64 {
                if sel >> i & 1 == 1 {
                    total = total.checked_add(s.u64f()).ok_or(true)?;
                }
            }
            if !skip(s, total) {
                return Err(true);
            }
            if n > 256 {
                return Err(true);
            }
        }
        f.ctd = ctd::spec(s, f.xyb).ok_or(true)?;
        Ok(f)
    }
    fn dump(h: &FileHeader) -> File {
        let m = &h.image_metadata;
        let d = m.bit_depth;
        File {
            size: (h.size.xsize() as u64, h.size.ysize() as u64),
            orientation: m.orientation as u64,
            intrinsic: m.intrinsic_size.as_ref().map(|s| (s.xsize() as u64, s.ysize() as u64)),
            preview: m.preview.as_ref().map(|s| (s.xsize() as u64, s.ysize() as u64)),
            animation: m.animation.as_ref().map(animation_dump),
            depth: (d.floating_point_sample(), d.bits_per_sample() as u64, d.exponent_bits_per_sample() as u64),
            sixteen: m.modular_16bit_sufficient,
            ec: m.extra_channel_info.iter().map(|e| (ecs::dump(e), ecs::name(e).chars().map(|c| c as u32 as u8).collect())).collect(),
            xyb: m.xyb_encoded,
            color: col::Kind::Valid(col::dump(&m.color_encoding)),
            tone: tone_dump(&m.tone_mapping),
            ctd: ctd::dump(&h.transform_data),
        }
    }

    // kind: sampled(image headers generated by walking the format, then cut or damaged)
    sampled!(c11_file_header, {
        let mut w = BitW::default();
        w.put(0x0aff, 16);
        // Walk the format from here on: the generator answers every field with a chosen value.
        let mut fresh = Prefixed(w, 16);
        let _ = spec(&mut fresh, &mut |w, n| {
            for _ in 0..n.min(2000) {
                w.0.put(0, 1);
            }
            n <= 2000
        });
        let mut w = fresh.0;
        w.noise(2);
        w.mutate();
        let mut s = BitS::new(&w.data);
        let want = spec(&mut s, &mut |s, n| {
            if s.short || n > s.left() as u64 {
                s.short = true;
                return false;
            }
            s.pos += n as usize;
            true
        });
        let mut br = BitReader::new(&w.data);
        let got = FileHeader::read(&mut br);
        if s.short {
            assert!(got.is_err() || want == Err(false), "cut short");
            return;
        }
        match want {
            Ok(f) => {
                let g = match got {
                    Ok(g) => g,
                    Err(e) => panic!("valid header rejected: {e:?} {f:?}"),
                };
                let d = dump(&g);
                assert!(d == f, "image header: {d:?} instead of {f:?}");
                assert!(br.total_bits_read() == s.pos, "consumes exactly its bits");
                let fh = g.frame_header_nonserialized();
                assert!(fh.img_width as u64 == f.size.0 && fh.img_height as u64 == f.size.1, "frame default size");
                assert!(fh.num_extra_channels as usize == f.ec.len() && fh.xyb_encoded == f.xyb && fh.have_animation == f.animation.is_some());
                assert!(fh.have_timecode == f.animation.is_some_and(|a| a[3] == 1));
                let p = g.preview_frame_header_nonserialized();
                assert!(p.map(|p| (p.img_width as u64, p.img_height as u64)) == f.preview, "preview default size");
            }
            Err(true) => assert!(got.is_err(), "invalid headers are rejected"),
            Err(false) => {}
        }
    });
    /// The generator, with the first `.1` bits already chosen.
    struct Prefixed(BitW, usize);
    impl Rd for Prefixed {
        fn get(&mut self, n: usize) -> u64 {
            if self.1 > 0 {
                self.1 -= n;
                return if self.1 == 8 { 0xff } else { 0x0a };
            }
            // Bias: extra channels stay few, fields mostly small or maximal.
            self.0.get(n)
        }
        fn is_short(&self) -> bool {
            false
        }
    }
}
