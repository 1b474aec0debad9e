// Native only: VarDCT frame headers and streams whose contents are chosen symbol by symbol.
use crate::bit_reader::BitReader;
use crate::headers::encodings::UnconditionalCoder;
use crate::headers::frame_header::{FrameHeader, FrameHeaderNonserialized};
use crate::headers::image_metadata::ImageMetadata;
use crate::verif::bits::*;
#[allow(unused_imports)]
use crate::verif::{vany, vrange};

pub fn log2(n: usize) -> usize {
    (0..).find(|b| 1usize << b >= n).unwrap()
}
pub struct Frame {
    pub header: FrameHeader,
    pub meta: ImageMetadata,
    /// Blocks, padded to whole chroma blocks.
    pub size: (usize, usize),
    /// How much less often each component is sampled.
    pub hs: [usize; 3],
    pub vs: [usize; 3],
    pub qm: [u32; 2],
    pub shifts: Vec<u32>,
}
pub fn frame(w: usize, h: usize, ycbcr: bool, passes: usize) -> Frame {
    let mut b = BitW::default();
    b.put(0, 1);
    b.put(0, 2);
    b.put(0, 1);
    b.put(0, 2);
    let mut js = [0usize; 3];
    let mut qm = [2, 2];
    if ycbcr {
        b.put(1, 1);
        for j in &mut js {
            *j = [0, 0, 1, 2, 3][vrange(0, 4)];
        }
        if vany() {
            js = [[0, 1, 0], [0, 2, 0], [0, 3, 0]][vrange(0, 2)];
        }
        for j in js {
            b.put(j as u64, 2);
        }
    }
    b.put(0, 2);
    if !ycbcr {
        qm = [vrange(0, 7) as u32, vrange(0, 7) as u32];
        b.put(qm[0] as u64, 3);
        b.put(qm[1] as u64, 3);
    }
    let mut shifts = vec![];
    b.put(passes as u64 - 1, 2);
    if passes > 1 {
        b.put(0, 2);
        for _ in 1..passes {
            shifts.push(vrange(0, 3) as u32);
            b.put(*shifts.last().unwrap() as u64, 2);
        }
    }
    b.put(0, 1);
    b.put(0, 2);
    b.put(1, 1);
    b.put(0, 2);
    b.put(1, 1);
    b.put(0, 2);
    b.put(0, 64);
    let ns = FrameHeaderNonserialized { xyb_encoded: !ycbcr, num_extra_channels: 0, extra_channel_info: vec![], have_animation: false, have_timecode: false, img_width: w as u32, img_height: h as u32 };
    let header = FrameHeader::read_unconditional(&(), &mut BitReader::new(&b.data), &ns).unwrap();
    let meta = ImageMetadata::read_unconditional(&(), &mut BitReader::new(&[255, 255]), &Default::default()).unwrap();
    // Modes 1, 2 and 3 sample both, the horizontal and the vertical direction twice as densely as mode 0.
    let (fx, fy) = ([0, 1, 1, 0], [0, 1, 0, 1]);
    let (mx, my) = (js.iter().map(|j| fx[*j]).max().unwrap(), js.iter().map(|j| fy[*j]).max().unwrap());
    let size = (w.div_ceil(8 << mx) << mx, h.div_ceil(8 << my) << my);
    Frame { header, meta, size, hs: js.map(|j| mx - fx[j]), vs: js.map(|j| my - fy[j]), qm, shifts }
}
/// A prefix code of four symbols, two bits each.
#[derive(Clone, Copy)]
pub struct Four(pub [u32; 4]);
impl Four {
    pub fn new(mut s: [u32; 4]) -> Four {
        s.sort();
        for i in 1..4 {
            if s[i] <= s[i - 1] {
                s[i] = s[i - 1] + 1;
            }
        }
        Four(s)
    }
    fn count(&self) -> usize {
        self.0[3] as usize + 1
    }
    pub fn put(&self, w: &mut BitW, v: u32) {
        w.code(self.0.iter().position(|x| *x == v).unwrap(), 2);
    }
}
/// The header of an entropy code whose contexts use the given codes, of values below 2^15.
pub fn codes(w: &mut BitW, contexts: &[usize], codes: &[Four]) {
    w.put(0, 1);
    if contexts.len() > 1 {
        w.put(1, 1);
        let b = log2(codes.len());
        w.put(b as u64, 2);
        for c in contexts {
            w.put(*c as u64, b);
        }
    }
    w.put(1, 1);
    for _ in codes {
        w.put(15, 4);
    }
    for c in codes {
        let n = c.count() - 1;
        w.put(1, 1);
        let k = n.ilog2() as usize;
        w.put(k as u64, 4);
        w.put((n - (1 << k)) as u64, k);
    }
    for c in codes {
        w.put(1, 2);
        w.put(3, 2);
        for s in c.0 {
            w.put(s as u64, log2(c.count()));
        }
        w.put(0, 1);
    }
}
pub fn pack(v: i32) -> u32 {
    ((v << 1) ^ (v >> 31)) as u32
}
/// A modular stream of its own tree. `split`: (property, value) of the inner nodes, children listed breadth first;
/// None is a leaf. Returns after the header; leaf i uses codes[i].
pub fn modular(w: &mut BitW, nodes: &[Option<(u32, i32)>], leaves: &[Four]) {
    w.put(0, 1);
    w.put(1, 1);
    w.put(0, 2);
    let (zero, props) = (Four::new([0, 1, 2, 4]), Four::new([0, 1, 3, 5]));
    codes(w, &[0, 1, 0, 0, 0, 0], &[zero, props]);
    for n in nodes {
        match n {
            Some((p, v)) => {
                props.put(w, p + 1);
                zero.put(w, pack(*v));
            }
            None => {
                props.put(w, 0);
                for _ in 0..4 {
                    zero.put(w, 0);
                }
            }
        }
    }
    let ctx: Vec<usize> = (0..leaves.len()).collect();
    codes(w, &ctx, leaves);
}
