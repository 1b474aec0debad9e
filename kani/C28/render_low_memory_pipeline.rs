// C28: the pipeline evaluates its stages over the whole image, however its groups arrive.
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vrange};

#[cfg(not(kani))]
mod run {
    use super::*;
    use crate::api::{Endianness, JxlColorType, JxlDataFormat};
    use crate::frame::ReferenceFrame;
    use crate::headers::Orientation;
    use crate::headers::frame_header::{BlendingInfo, BlendingMode};
    use crate::render::builder::RenderPipelineBuilder;
    use crate::render::{Channels, ChannelsMut, RenderPipelineInOutStage, RenderPipelineInPlaceStage};
    use crate::render::stages::ExtendToImageDimensionsStage;
    use crate::util::f16;
    use crate::util::sync::Arc;
    use std::marker::PhantomData;

    trait Num: ImageDataType {
        fn of(v: i64) -> Self;
        fn to(self) -> i64;
    }
    macro_rules! num { ($($t:ty),*) => { $(impl Num for $t {
        fn of(v: i64) -> Self { v as $t }
        fn to(self) -> i64 { self as i64 }
    })* } }
    num!(u8, u16, i32, f32);
    impl Num for f16 {
        fn of(v: i64) -> Self {
            f16::from_bits(v as u16)
        }
        fn to(self) -> i64 {
            self.to_bits() as i64
        }
    }
    /// What a stage computes: a sum that tells every channel, sample and position apart.
    #[derive(Clone, Copy)]
    struct Mix {
        mask: usize,
        seed: i64,
        border: (isize, isize),
        shift: (usize, usize),
        modulus: i64,
        place: bool,
    }
    impl Mix {
        fn uses(&self, c: usize) -> bool {
            self.mask >> c & 1 == 1
        }
        /// Sample (`i`, `j`) of the cell made from (`x`, `y`) for the `k`-th of `n` channels.
        fn at(&self, n: usize, k: usize, x: isize, y: isize, i: usize, j: usize, get: impl Fn(usize, isize, isize) -> i64) -> i64 {
            let mut s = self.seed + if self.place { 13 * x as i64 + 17 * y as i64 } else { 0 } + 31 * i as i64 + 37 * j as i64;
            for c in 0..n {
                for dy in -self.border.1..=self.border.1 {
                    for dx in -self.border.0..=self.border.0 {
                        let w = 5 + ((c + n - k) % n) as i64 * 7 + (dx + 4) as i64 * 3 + (dy + 4) as i64 * 11 + self.seed % 3 * (dx * dy) as i64;
                        s += w * get(c, dx, dy);
                    }
                }
            }
            s.rem_euclid(self.modulus)
        }
    }
    struct InOut<A, B, const BX: u8, const BY: u8, const SX: u8, const SY: u8>(Mix, PhantomData<fn(A, B)>);
    impl<A, B, const BX: u8, const BY: u8, const SX: u8, const SY: u8> std::fmt::Display for InOut<A, B, BX, BY, SX, SY> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "mix")
        }
    }
    impl<A: Num, B: Num, const BX: u8, const BY: u8, const SX: u8, const SY: u8> RenderPipelineInOutStage for InOut<A, B, BX, BY, SX, SY> {
        type InputT = A;
        type OutputT = B;
        const BORDER: (u8, u8) = (BX, BY);
        const SHIFT: (u8, u8) = (SX, SY);
        fn process_row_chunk(&self, (x0, y): (usize, usize), xsize: usize, inp: &Channels<A>, out: &mut ChannelsMut<B>, _: Option<&mut ErasedLocalState>) {
            let n = inp.len();
            for k in 0..n {
                for j in 0..1 << SY {
                    for x in 0..xsize {
                        for i in 0..1 << SX {
                            let v = self.0.at(n, k, (x0 + x) as isize, y as isize, i, j, |c, dx, dy| inp[c][(dy + BY as isize) as usize][(x as isize + dx + BX as isize) as usize].to());
                            out[k][j][(x << SX) + i] = B::of(v);
                        }
                    }
                }
            }
        }
        fn uses_channel(&self, c: usize) -> bool {
            self.0.uses(c)
        }
    }
    struct InPlace<A>(Mix, PhantomData<fn(A)>);
    impl<A> std::fmt::Display for InPlace<A> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "mix in place")
        }
    }
    impl<A: Num> RenderPipelineInPlaceStage for InPlace<A> {
        type Type = A;
        fn process_row_chunk(&self, (x0, y): (usize, usize), xsize: usize, row: &mut [&mut [A]], _: Option<&mut ErasedLocalState>) {
            let n = row.len();
            for x in 0..xsize {
                let v: Vec<i64> = row.iter().map(|r| r[x].to()).collect();
                for k in 0..n {
                    row[k][x] = A::of(self.0.at(n, k, (x0 + x) as isize, y as isize, 0, 0, |c, _, _| v[c]));
                }
            }
        }
        fn uses_channel(&self, c: usize) -> bool {
            self.0.uses(c)
        }
    }
    /// A whole channel.
    #[derive(Clone)]
    struct Plane {
        size: (usize, usize),
        v: Vec<i64>,
    }
    impl Plane {
        fn new(size: (usize, usize), mut f: impl FnMut(usize, usize) -> i64) -> Self {
            let mut v = Vec::with_capacity(size.0 * size.1);
            for y in 0..size.1 {
                for x in 0..size.0 {
                    v.push(f(x, y));
                }
            }
            Plane { size, v }
        }
        /// Reads are reflected at the edges, which repeat.
        fn get(&self, x: isize, y: isize) -> i64 {
            fn m(mut x: isize, n: isize) -> isize {
                while x < 0 || x >= n {
                    x = if x < 0 { -1 - x } else { 2 * n - 1 - x };
                }
                x
            }
            self.v[(m(y, self.size.1 as isize) * self.size.0 as isize + m(x, self.size.0 as isize)) as usize]
        }
    }
    fn noise(mut x: u64) -> i64 {
        x = (x ^ x >> 31).wrapping_mul(0x9E3779B97F4A7C15);
        x = (x ^ x >> 29).wrapping_mul(0xBF58476D1CE4E5B9);
        (x >> 40) as i64
    }
    /// The naive result of a stage.
    fn apply(m: &Mix, ch: &mut [Plane], ds: &mut [(usize, usize)], full: (usize, usize)) {
        let used: Vec<usize> = (0..ch.len()).filter(|c| m.uses(*c)).collect();
        let old = ch.to_vec();
        for (k, &c) in used.iter().enumerate() {
            ds[c] = (ds[c].0 - m.shift.0, ds[c].1 - m.shift.1);
            let size = ((full.0 + (1 << ds[c].0) - 1) >> ds[c].0, (full.1 + (1 << ds[c].1) - 1) >> ds[c].1);
            ch[c] = Plane::new(size, |x, y| {
                let (ix, iy) = (x >> m.shift.0, y >> m.shift.1);
                let (i, j) = (x - (ix << m.shift.0), y - (iy << m.shift.1));
                m.at(used.len(), k, ix as isize, iy as isize, i, j, |c, dx, dy| old[used[c]].get(ix as isize + dx, iy as isize + dy))
            });
        }
    }
    struct Save {
        channels: Vec<usize>,
        orientation: Orientation,
        color: JxlColorType,
        format: JxlDataFormat,
        opaque: bool,
        planes: Vec<Plane>,
    }
    const ORIENTATIONS: [Orientation; 8] = [
        Orientation::Identity, Orientation::FlipHorizontal, Orientation::Rotate180, Orientation::FlipVertical, Orientation::Transpose, Orientation::Rotate90Cw, Orientation::AntiTranspose, Orientation::Rotate90Ccw,
    ];
    /// Where the sample at (`x`, `y`) is displayed, by the rotations and reflections of the Exif standard.
    fn shown(o: usize, x: usize, y: usize, (w, h): (usize, usize)) -> (usize, usize) {
        let (fx, fy) = (w - 1 - x, h - 1 - y);
        [(x, y), (fx, y), (fx, fy), (x, fy), (y, x), (fy, x), (fy, fx), (y, fx)][o]
    }
    fn bytes(f: JxlDataFormat, v: i64) -> Vec<u8> {
        match f {
            JxlDataFormat::U8 { .. } => vec![v as u8],
            JxlDataFormat::U16 { endianness, .. } | JxlDataFormat::F16 { endianness } => {
                if endianness == Endianness::LittleEndian { (v as u16).to_le_bytes().to_vec() } else { (v as u16).to_be_bytes().to_vec() }
            }
            JxlDataFormat::F32 { endianness } => {
                if endianness == Endianness::LittleEndian { (v as f32).to_le_bytes().to_vec() } else { (v as f32).to_be_bytes().to_vec() }
            }
        }
    }
    fn expected(s: &Save, full: (usize, usize), stride: usize, out: &mut [u8]) {
        let o = ORIENTATIONS.iter().position(|x| *x == s.orientation).unwrap();
        let n = match s.color { JxlColorType::Grayscale => 1, JxlColorType::GrayscaleAlpha => 2, JxlColorType::Rgb | JxlColorType::Bgr => 3, _ => 4 };
        let bgr = matches!(s.color, JxlColorType::Bgr | JxlColorType::Bgra);
        for y in 0..full.1 {
            for x in 0..full.0 {
                let (px, py) = shown(o, x, y, full);
                for i in 0..n {
                    let b = if s.opaque && i == n - 1 {
                        bytes(s.format, match s.format {
                            JxlDataFormat::U8 { bit_depth } | JxlDataFormat::U16 { bit_depth, .. } => (1 << bit_depth) - 1,
                            JxlDataFormat::F16 { .. } => 0x3C00,
                            JxlDataFormat::F32 { .. } => 1,
                        })
                    } else {
                        let c = s.channels[if bgr && i < 3 { 2 - i } else { i }];
                        bytes(s.format, s.planes[c].get(x as isize, y as isize))
                    };
                    let at = py * stride + (px * n + i) * b.len();
                    out[at..at + b.len()].copy_from_slice(&b);
                }
            }
        }
    }

    pub fn pipeline(threads: bool) {
        let nc = vrange(1, 5);
        let lg = vrange(5, 9);
        let big = [40, 100, 200, 300, 1200][vrange(0, 4)];
        let side = |most: usize| {
            // At times a little more than a whole number of groups.
            let n = vrange(1, most.min(3 << lg));
            if vrange(0, 2) == 0 { (n >> lg << lg) + vrange(1, 24) } else { n }
        };
        let full = (side(big), side(big));
        vassume(full.0 * full.1 <= 90000);
        let fmt_of = |k: usize| {
            let e = if vany() { Endianness::LittleEndian } else { Endianness::BigEndian };
            match k {
                0 => JxlDataFormat::U8 { bit_depth: vrange(1, 8) as u8 },
                1 => JxlDataFormat::U16 { endianness: e, bit_depth: vrange(1, 16) as u8 },
                2 => JxlDataFormat::F16 { endianness: e },
                _ => JxlDataFormat::F32 { endianness: e },
            }
        };
        // As in every frame, the channels form two sets (colour and others), each subsampled alike or first brought to one size;
        // stages with borders use one channel or one set.
        let all = (1 << nc) - 1;
        let first = vrange(1, all);
        let sets: Vec<usize> = [first, all & !first].into_iter().filter(|m| *m != 0).collect();
        // The first set is enlarged alike, other channels by a factor of their own.
        let up = if vany() { vrange(0, 3) } else { 0 };
        let ups: Vec<usize> = (0..nc).map(|c| if first >> c & 1 == 1 { up } else if vany() { vrange(0, 3) } else { up }).collect();
        let subsampled = vany();
        let mut ds: Vec<(usize, usize)> = (0..nc).map(|_| if subsampled { [(0, 0), (1, 1), (1, 0), (0, 1)][vrange(0, 3)] } else { (0, 0) }).collect();
        for (d, u) in ds.iter_mut().zip(&ups) {
            *d = (d.0 + u, d.1 + u);
        }
        let ds0 = ds.clone();
        vassume(ds.iter().all(|d| d.0 + 4 <= lg && d.1 + 4 <= lg));
        let mut planned: Vec<(usize, Mix)> = vec![];
        let mix = |mask, border, shift, modulus| Mix { mask, seed: vrange(0, 1000) as i64, border, shift, modulus, place: true };
        let plain = |masks: &[usize], most: usize, planned: &mut Vec<(usize, Mix)>| {
            for _ in 0..vrange(0, most) {
                let kind = vrange(0, 6);
                let b = [(0, 0), (1, 1), (2, 2), (1, 0), (0, 1), (3, 3), (0, 0)][kind];
                planned.push((kind, mix(masks[vrange(0, masks.len() - 1)], b, (0, 0), 4093)));
            }
        };
        let single: Vec<usize> = (0..nc).map(|c| 1 << c).collect();
        plain(&single, 1, &mut planned);
        for c in 0..nc {
            let d = ds[c];
            let d = (d.0 - ups[c], d.1 - ups[c]);
            if d.0 == 1 {
                planned.push((7, mix(1 << c, (1, 0), (1, 0), 4093)));
            }
            if d.1 == 1 {
                planned.push((8, mix(1 << c, (0, 1), (0, 1), 4093)));
            }
        }
        let alike: Vec<usize> = sets.iter().copied().filter(|m| (0..nc).all(|c| (0..nc).all(|d| m >> c & m >> d & 1 == 0 || ups[c] == ups[d]))).collect();
        plain(&alike, 2, &mut planned);
        for c in 0..nc {
            if ups[c] != 0 {
                planned.push((10, mix(1 << c, (2, 2), (ups[c], ups[c]), 4093)));
            }
        }
        plain(&sets, 2, &mut planned);
        if vany() {
            planned.push((6, mix(all, (0, 0), (0, 0), 4093)));
        }
        // Pipelines need at most 9 samples around what a stage gives.
        let mut around = vec![(0, 0); nc];
        for (_, m) in planned.iter().rev() {
            for c in 0..nc {
                if m.uses(c) {
                    vassume(around[c].0 <= 9 && around[c].1 <= 9);
                    around[c] = ((around[c].0 + (1 << m.shift.0) - 1 >> m.shift.0) + m.border.0, (around[c].1 + (1 << m.shift.1) - 1 >> m.shift.1) + m.border.1);
                }
            }
        }
        // Stages get at most 32 rows to read.
        vassume(planned.iter().all(|(_, m)| (m.mask.count_ones() as isize) * (2 * m.border.1 + 1) <= 32));
        let mut b = RenderPipelineBuilder::<LowMemoryRenderPipeline>::new(nc, full, 0, lg, Some(vrange(0, 4)));
        for (kind, m) in &planned {
            macro_rules! put { ($($bx:literal $by:literal $sx:literal $sy:literal),*) => {
                match (m.border, m.shift) {
                    $( (($bx, $by), ($sx, $sy)) => b.add_inout_stage(InOut::<f32, f32, $bx, $by, $sx, $sy>(*m, PhantomData)), )*
                    _ => unreachable!(),
                }
            } }
            b = if *kind == 6 { b.add_inplace_stage(InPlace::<f32>(*m, PhantomData)) } else { put!(0 0 0 0, 1 1 0 0, 2 2 0 0, 1 0 0 0, 0 1 0 0, 3 3 0 0, 1 0 1 0, 0 1 0 1, 2 2 1 1, 2 2 2 2, 2 2 3 3) };
        }
        // The reference result follows the same plan.
        let seed: u64 = vany();
        let mut ch: Vec<Plane> = (0..nc).map(|c| {
            let d = ds0[c];
            Plane::new(((full.0 + (1 << d.0) - 1) >> d.0, (full.1 + (1 << d.1) - 1) >> d.1), |x, y| noise(seed ^ (c << 40 | y << 20 | x) as u64) % 65536)
        }).collect();
        let input = ch.clone();
        for (_, m) in &planned {
            apply(m, &mut ch, &mut ds, full);
        }
        let mut saves: Vec<Save> = vec![];
        let mut out_size = full;
        let pick = |planes: &Vec<Plane>, kinds: &Vec<usize>, turn: bool| {
            let c = vrange(0, nc - 1);
            let color = [JxlColorType::Grayscale, JxlColorType::GrayscaleAlpha, JxlColorType::Rgb, JxlColorType::Rgba, JxlColorType::Bgr, JxlColorType::Bgra][vrange(0, 5)];
            let opaque = color.has_alpha() && vany();
            let n = color.samples_per_pixel() - opaque as usize;
            let mut channels: Vec<usize> = (0..nc).filter(|x| kinds[*x] == kinds[c]).collect();
            for i in 0..channels.len() {
                let j = vrange(i, channels.len() - 1);
                channels.swap(i, j);
            }
            vassume(channels.len() >= n);
            channels.truncate(n);
            Save { channels, orientation: ORIENTATIONS[if turn { vrange(0, 7) } else { 0 }], color, format: fmt_of(kinds[c]), opaque, planes: planes.clone() }
        };
        macro_rules! save { ($k:expr, $turn:expr) => {
            let s = pick(&ch, $k, $turn);
            b = b.add_save_stage(&s.channels, s.orientation, saves.len(), s.color, s.format, s.opaque);
            saves.push(s);
        } }
        let extend = vrange(0, 2) == 0;
        let mut sizes = vec![];
        if vrange(0, 3) == 0 {
            // Frames that are saved for reference are not turned.
            save!(&vec![3; nc], !extend);
            sizes.push(out_size);
        }
        if extend {
            let img = (vrange(1, big * 2), vrange(1, big * 2));
            let o = (vrange(0, full.0 + img.0 + 4) as isize - full.0 as isize - 2, vrange(0, full.1 + img.1 + 4) as isize - full.1 as isize - 2);
            let refs: [Option<usize>; 4] = std::array::from_fn(|i| if vany() { Some(i + 7) } else { None });
            let old = |r: usize, c: usize, x: usize, y: usize| refs[r].map_or(0, |i| noise((i * 31 + c) as u64 ^ (y << 24 | x) as u64) % 1000);
            let infos: Vec<BlendingInfo> = (0..nc.max(3)).map(|_| BlendingInfo { mode: BlendingMode::Replace, alpha_channel: 0, clamp: false, source: vrange(0, 3) as u32 }).collect();
            let frames: [Option<ReferenceFrame>; 4] = std::array::from_fn(|r| refs[r].map(|_| ReferenceFrame {
                frame: (0..nc).map(|c| {
                    let mut im = Image::<f32>::new(img).unwrap();
                    for y in 0..img.1 {
                        for x in 0..img.0 {
                            im.row_mut(y)[x] = old(r, c, x, y) as f32;
                        }
                    }
                    im
                }).collect(),
                saved_before_color_transform: false,
            }));
            b = b.add_extend_stage(ExtendToImageDimensionsStage {
                frame_origin: o, image_size: img, blending_info: infos[0].clone(), ec_blending_info: infos[3.min(nc)..].iter().skip(if nc < 3 { 3 - nc } else { 0 }).cloned().collect(), extra_channels: vec![], reference_frames: Arc::new(frames), zeros: vec![0.0; img.0],
            });
            let ec = |c: usize| if c < 3 { infos[0].source } else { infos[c].source } as usize;
            for c in 0..nc {
                let p = ch[c].clone();
                ch[c] = Plane::new(img, |x, y| {
                    let (fx, fy) = (x as isize - o.0, y as isize - o.1);
                    if fx >= 0 && fy >= 0 && fx < full.0 as isize && fy < full.1 as isize { p.get(fx, fy) } else { old(ec(c), c, x, y) }
                });
            }
            out_size = img;
            if vany() {
                let m = Mix { place: false, ..mix(vrange(1, all), (0, 0), (0, 0), 4093) };
                b = b.add_inplace_stage(InPlace::<f32>(m, PhantomData));
                apply(&m, &mut ch, &mut ds, out_size);
            }
        }
        // Conversion to the output types.
        let kinds: Vec<usize> = if vany() { vec![vrange(0, 3); nc] } else { (0..nc).map(|_| vrange(0, 3)).collect() };
        for c in 0..nc {
            let m = Mix { place: !extend, ..mix(1 << c, (0, 0), (0, 0), [256, 65536, 65536, 4093][kinds[c]]) };
            b = match kinds[c] {
                0 => b.add_inout_stage(InOut::<f32, u8, 0, 0, 0, 0>(m, PhantomData)),
                1 => b.add_inout_stage(InOut::<f32, u16, 0, 0, 0, 0>(m, PhantomData)),
                2 => b.add_inout_stage(InOut::<f32, f16, 0, 0, 0, 0>(m, PhantomData)),
                _ => continue,
            };
            apply(&m, &mut ch, &mut ds, out_size);
        }
        for _ in 0..vrange(1, 3) {
            save!(&kinds, true);
            sizes.push(out_size);
        }
        let mut p = b.build().unwrap();
        // Real groups are far larger than any border.
        vassume(p.border_size.0 * 2 <= 1 << lg && p.border_size.1 * 2 <= 1 << lg);
        // The outputs.
        let skip: Vec<bool> = saves.iter().map(|_| vrange(0, 9) == 0).collect();
        let lay: Vec<(usize, usize, usize, usize)> = saves.iter().zip(&sizes).map(|(s, size)| {
            let tr = ORIENTATIONS.iter().position(|x| *x == s.orientation).unwrap() >= 4;
            let (w, h) = if tr { (size.1, size.0) } else { *size };
            let row = w * s.color.samples_per_pixel() * s.format.bytes_per_sample();
            (vrange(0, 3), row + [0, 0, 1, 4, 64][vrange(0, 4)], row, h)
        }).collect();
        let mut got: Vec<Vec<u8>> = lay.iter().map(|(off, stride, _, h)| vec![0xA5; off + stride * h + 8]).collect();
        // Deliver the groups: some of them earlier with provisional samples.
        let groups = (full.0.div_ceil(1 << lg), full.1.div_ceil(1 << lg));
        let n = groups.0 * groups.1;
        let used: Vec<bool> = p.used_channel_mask().to_vec();
        let rounds = vrange(0, 2);
        // The round in which each channel of each group becomes final.
        let last: Vec<Vec<usize>> = (0..n).map(|_| (0..nc).map(|_| vrange(0, rounds)).collect()).collect();
        // Rounds are left out for groups none of whose channels become final, at times.
        let take: Vec<Vec<bool>> = (0..rounds + 1).map(|_| (0..n).map(|_| vrange(0, 2) > 0).collect()).collect();
        let every: Vec<bool> = (0..rounds + 1).map(|_| vany()).collect();
        let mut delivered = vec![false; n];
        for r in 0..rounds + 1 {
            let mut bufs: Vec<Option<JxlOutputBuffer>> = got.iter_mut().zip(&lay).zip(&skip).map(|((g, l), s)| if *s { None } else { Some(JxlOutputBuffer::new_with_stride(&mut g[l.0..], l.3, l.2, l.1)) }).collect();
            p.check_buffer_sizes(&mut bufs).unwrap();
            let splitter = BufferSplitter::new(&mut bufs);
            p.render_outside_frame(&splitter).unwrap();
            let mut order: Vec<usize> = (0..n).filter(|g| r == rounds && (0..nc).any(|c| used[c] && !p.shared.group_chan_complete[*g][c].load(Ordering::Relaxed)) || r < rounds && (every[r] || take[r][*g]) && (0..nc).any(|c| used[c] && !p.shared.group_chan_complete[*g][c].load(Ordering::Relaxed))).collect();
            for i in 0..order.len() {
                let j = vrange(i, order.len() - 1);
                order.swap(i, j);
            }
            let mut work: Vec<Vec<(usize, bool)>> = vec![];
            for g in &order {
                if delivered[*g] {
                    p.mark_group_to_rerender(*g);
                }
                // Channels that are final already stay with the pipeline.
                let mut cs: Vec<(usize, bool)> = (0..nc).filter(|c| used[*c] && (!delivered[*g] || !p.shared.group_chan_complete[*g][*c].load(Ordering::Relaxed))).map(|c| (c, last[*g][c] <= r)).collect();
                for i in 0..cs.len() {
                    let j = vrange(i, cs.len() - 1);
                    cs.swap(i, j);
                }
                work.push(cs);
            }
            let p: &LowMemoryRenderPipeline = &p;
            let deliver = |g: usize, cs: &[(usize, bool)]| {
                let (gx, gy) = (g % groups.0, g / groups.0);
                for &(c, done) in cs {
                    let d = ds0[c];
                    let mut im: Image<f32> = if used[c] && p.shared.channel_info[0][c].ty == Some(DataTypeTag::F32) { p.get_buffer(c).unwrap() } else { unreachable!() };
                    for y in 0..im.size().1 {
                        let row = im.row_mut(y);
                        for (x, o) in row.iter_mut().enumerate() {
                            let (ix, iy) = ((gx << lg - d.0) + x, (gy << lg - d.1) + y);
                            *o = if !done { 5.0 + x as f32 } else if ix < input[c].size.0 && iy < input[c].size.1 { input[c].get(ix as isize, iy as isize) as f32 } else { 9999.0 };
                        }
                    }
                    p.set_buffer_for_group(c, g, done, im, &splitter).unwrap();
                }
            };
            if threads {
                let next = std::sync::atomic::AtomicUsize::new(0);
                std::thread::scope(|s| {
                    for _ in 0..4 {
                        s.spawn(|| loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if i >= order.len() {
                                break;
                            }
                            deliver(order[i], &work[i]);
                        });
                    }
                });
            } else {
                for (g, cs) in order.iter().zip(&work) {
                    deliver(*g, cs);
                }
            }
            for g in &order {
                delivered[*g] = true;
            }
        }
        for (i, s) in saves.iter().enumerate() {
            let mut want = vec![0xA5; got[i].len()];
            if !skip[i] {
                expected(s, sizes[i], lay[i].1, &mut want[lay[i].0..]);
            }
            assert!(got[i] == want, "rendered pixels");
        }
    }
}
// kind: sampled(up to 5 channels of up to 3x3 groups of 32 to 256 pixels, up to 14 stages of any border, subsampling and position, all orientations and formats, up to 3 rounds)
sampled!(c28_pipeline_sampled, { run::pipeline(false) });
// kind: sampled(the same, groups delivered by 4 threads)
sampled!(c28_threads_sampled, { run::pipeline(true) });
