// C11: extra channels.
#[allow(unused_imports)]
use crate::headers::bit_depth::headers_bit_depth::depth_spec;
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};
#[allow(unused_imports)]
use crate::verif::{Rd, Tape, harness, tape_harness, vany, vassume, vcover, vok, vrange};

#[derive(Clone, Debug)]
pub(crate) struct Ec {
    ty: u64,
    depth: (bool, u64, u64),
    shift: u64,
    assoc: bool,
    spot: Option<[u32; 4]>,
    cfa: Option<u64>,
}
impl PartialEq for Ec {
    fn eq(&self, o: &Ec) -> bool {
        let spot = match (self.spot, o.spot) {
            (None, None) => true,
            (Some(a), Some(b)) => a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3],
            _ => false,
        };
        self.ty == o.ty && self.depth == o.depth && self.shift == o.shift && self.assoc == o.assoc && spot && self.cfa == o.cfa
    }
}
/// None: not a defined extra channel. `name` reads a name of that many bytes.
pub(crate) fn ec_spec<R: Rd>(s: &mut R, mut name: impl FnMut(&mut R, u64) -> bool) -> Option<Ec> {
    let mut e = Ec { ty: 0, depth: (false, 8, 0), shift: 0, assoc: false, spot: None, cfa: None };
    if s.flag() {
        return Some(e);
    }
    e.ty = s.en();
    if e.ty > 16 {
        return None;
    }
    let (d, ok) = depth_spec(s);
    if !ok {
        return None;
    }
    e.depth = d;
    e.shift = s.sel([(0, 0), (0, 3), (0, 4), (3, 1)]);
    let n = s.sel([(0, 0), (4, 0), (5, 16), (10, 48)]);
    if n > 0 && !name(s, n) {
        return None;
    }
    match e.ty {
        0 => e.assoc = s.flag(),
        2 => {
            let mut v = [0; 4];
            for x in v.iter_mut() {
                *x = s.half()?.to_bits();
            }
            e.spot = Some(v);
        }
        5 => e.cfa = Some(s.sel([(0, 1), (2, 0), (4, 3), (8, 19)])),
        _ => {}
    }
    if e.shift > 3 { None } else { Some(e) }
}
pub(crate) fn dump(g: &ExtraChannelInfo) -> Ec {
    let d = g.bit_depth();
    Ec {
        ty: g.ec_type as u64,
        depth: (d.floating_point_sample(), d.bits_per_sample() as u64, d.exponent_bits_per_sample() as u64),
        shift: g.dim_shift() as u64,
        assoc: g.alpha_associated(),
        spot: g.spot_color.map(|c| [c[0].to_bits(), c[1].to_bits(), c[2].to_bits(), c[3].to_bits()]),
        cfa: g.cfa_channel.map(|x| x as u64),
    }
}
pub(crate) fn name(g: &ExtraChannelInfo) -> &str {
    &g.name
}

// Names are C02's subject: the callee is replaced by "empty name, or none of this harness's business".
#[cfg(kani)]
fn no_name(_: &(), br: &mut BitReader, _: &Empty) -> Result<String, Error> {
    let n = match br.read(2)? {
        0 => 0,
        1 => br.read(4)?,
        2 => br.read(5)? + 16,
        _ => br.read(10)? + 48,
    };
    if n != 0 { Err(Error::SizeOverflow) } else { Ok(String::new()) }
}
// kind: proof
tape_harness!(
    #[kani::stub(<std::string::String as crate::headers::encodings::UnconditionalCoder<()>>::read_unconditional, no_name)]
    c11_extra_channel, unwind = 12, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let got = vok(ExtraChannelInfo::read_unconditional(&(), &mut br, &Empty {}));
    let mut named = false;
    let want = ec_spec(&mut s, |_, _| {
        named = true;
        false
    });
    if named {
        return;
    }
    if s.short {
        assert!(got.is_none(), "cut short");
        return;
    }
    match want {
        None => assert!(got.is_none(), "undefined"),
        Some(w) => {
            let g = got.unwrap();
            assert!(dump(&g) == w, "extra channel");
            assert!(br.total_bits_read() == s.pos, "consumes exactly its bits");
            std::mem::forget(g);
        }
    }
});
