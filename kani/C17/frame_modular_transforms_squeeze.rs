// C17: squeeze.
// native: simd
#[allow(unused_imports)]
use jxl_simd::ScalarDescriptor;

#[allow(unused_imports)]
use crate::headers::bit_depth::BitDepth;
#[allow(unused_imports)]
use crate::verif::{harness, sampled, vany, vassume, vcover, vok, vrange};
#[allow(dead_code)]
mod modref {
    include!(concat!(env!("JXL_VERIF_DIR"), "/modref.rs"));
}

fn lane(v: <ScalarDescriptor as SimdDescriptor>::I32Vec) -> i32 {
    let mut o = [0];
    v.store(&mut o);
    o[0]
}
fn vec(v: i32) -> <ScalarDescriptor as SimdDescriptor>::I32Vec {
    <ScalarDescriptor as SimdDescriptor>::I32Vec::splat(ScalarDescriptor::new().unwrap(), v)
}
fn small(bits: u32) -> i32 {
    let v: i32 = vany();
    vassume(v >= -(1 << bits) && v < (1 << bits));
    v
}
// The scalar rows' tendency, for all samples of up to 31 bits.
// kind: proof
harness!(c17_tendency, {
    let (b, a, n) = (small(30) as i64, small(30) as i64, small(30) as i64);
    assert!(smooth_tendency_scalar(b, a, n) == modref::tendency(b, a, n), "tendency");
});
// The vector rows' tendency (no division): the same on small samples.
// kind: bounded(samples of at most 7 bits)
harness!(c17_vector_tendency, {
    let (b, a, n) = (small(6), small(6), small(6));
    let d = ScalarDescriptor::new().unwrap();
    let got = lane(smooth_tendency_impl(d, vec(b), vec(a), vec(n)));
    assert!(got as i64 == modref::tendency(b as i64, a as i64, n as i64), "vector tendency");
});
// The division by 3 inside it.
// kind: bounded(numbers below 49152)
harness!(c17_third, {
    let q: i32 = vany();
    vassume(q >= 0 && q < 1 << 14);
    for r in 0..3 {
        // Each non-negative number below 3 * 2^14 is 3q + r for one such q and r.
        let third = lane(vec(3 * q + r).mul_wide_take_high(vec(0x55555556)));
        assert!(third == q, "a third, rounded down");
    }
});

/// The tendency's contract, all the pair needs of it: any value in range.
#[cfg(kani)]
fn some_tendency(_: i64, _: i64, _: i64) -> i64 {
    unsafe { TEND as i64 }
}
#[cfg(kani)]
fn some_vector_tendency<D: SimdDescriptor>(d: D, _: D::I32Vec, _: D::I32Vec, _: D::I32Vec) -> D::I32Vec {
    D::I32Vec::splat(d, unsafe { TEND })
}
#[cfg(kani)]
static mut TEND: i32 = 0;
// The squeezed pair (average, difference less tendency) gives back the two samples, for any tendency.
// kind: proof
harness!(#[cfg_attr(kani, kani::stub(smooth_tendency_scalar, some_tendency))] c17_pair, {
    let (p, q) = (small(28), small(28));
    let (next, prev) = (small(28), small(28));
    let avg = (p + q + (p > q) as i32) >> 1;
    #[cfg(kani)]
    let t = {
        let t = small(28);
        unsafe { TEND = t };
        t
    };
    #[cfg(not(kani))]
    let t = smooth_tendency_scalar(prev as i64, avg as i64, next as i64) as i32;
    let (a, b) = unsqueeze_scalar(avg, p - q - t, next, prev);
    assert!(a == p && b == q, "lossless");
});
// kind: proof
harness!(#[cfg_attr(kani, kani::stub(smooth_tendency_impl, some_vector_tendency))] c17_vector_pair, {
    let (p, q) = (small(28), small(28));
    let (next, prev) = (small(28), small(28));
    let avg = (p + q + (p > q) as i32) >> 1;
    let d = ScalarDescriptor::new().unwrap();
    #[cfg(kani)]
    let t = {
        let t = small(28);
        unsafe { TEND = t };
        t
    };
    #[cfg(not(kani))]
    let t = lane(smooth_tendency_impl(d, vec(prev), vec(avg), vec(next)));
    let (a, b) = unsqueeze_impl(d, vec(avg), vec(p - q - t), vec(next), vec(prev));
    assert!(lane(a) == p && lane(b) == q, "lossless");
});

// kind: proof
harness!(c17_params, unwind = 5, {
    let mut list = Vec::from([0, 1, 2].map(|i| {
        let meta: bool = vany();
        (i, ChannelInfo { output_channel_idx: None, size: (vany(), vany()), shift: if meta { None } else { Some((0, 0)) }, bit_depth: BitDepth::integer_samples(8) })
    }));
    let p = SqueezeParams { horizontal: vany(), in_place: vany(), begin_channel: vany(), num_channels: vany() };
    // What their codes can hold.
    vassume(p.num_channels >= 1 && p.num_channels <= 19 && p.begin_channel < 9288);
    let got = vok(check_squeeze_params(&list, &p)).is_some();
    let (b, e) = (p.begin_channel as usize, (p.begin_channel + p.num_channels) as usize);
    let want = e <= 3 && {
        let (f, l) = (list[b].1.shift.is_none(), list[e - 1].1.shift.is_none());
        f == l && (!f || p.in_place)
    };
    assert!(got == want, "parameters");
    std::mem::forget(list);
});

#[cfg(not(kani))]
mod rows {
    use super::*;
    pub fn run() {
        let horizontal: bool = vany();
        // Along and across the squeezed direction.
        let (along, across) = if vrange(0, 3) == 0 { (vrange(1, 90), vrange(1, 5)) } else { (vrange(1, 40), vrange(1, 40)) };
        let (na, nr) = (along.div_ceil(2), along / 2);
        // A final average beyond the output may be available in the average's buffer.
        let extra = if along % 2 == 0 && vany() { 1 } else { 0 };
        let range = 1i64 << [2, 8, 16, 26][vrange(0, 3)];
        let v = || (vrange(0, (2 * range) as usize) as i64 - range) as i32;
        let (ox, oy) = (vrange(0, 3), vrange(0, 2));
        let dims = |n: usize, k: usize| if horizontal { (n, k) } else { (k, n) };
        let image = |(w, h): (usize, usize)| {
            let mut i = Image::<i32>::new((w + ox, h + oy)).unwrap();
            for y in 0..h + oy {
                for x in 0..w + ox {
                    i.row_mut(y)[x] = v();
                }
            }
            i
        };
        let (avg, res) = (image(dims(na + extra, across)), image(dims(nr, across)));
        let next = if vany() { Some(image(dims(4, across))) } else { None };
        let prev = if vany() { Some(image(dims(4, across))) } else { None };
        let mut out = ModularChannel::new(dims(along, across), BitDepth::integer_samples(8)).unwrap();
        let rect = |i: &Image<i32>, size: (usize, usize)| crate::image::Rect { origin: if i.size().0 == 0 { (0, 0) } else { (ox, oy) }, size };
        let (ra, rr) = (rect(&avg, dims(na + extra, across)), rect(&res, dims(nr, across)));
        if nr == 0 && (ox == 0 && horizontal || oy == 0 && !horizontal) {
            return;
        }
        let (ia, ir) = (avg.get_rect(ra), res.get_rect(rr));
        if horizontal {
            do_hsqueeze_step(&ia, &ir, next.as_ref(), prev.as_ref(), &mut [&mut out]);
        } else {
            do_vsqueeze_step(&ia, &ir, next.as_ref(), prev.as_ref(), &mut [&mut out]);
        }
        let at = |i: &Image<i32>, n: usize, k: usize, o: (usize, usize)| {
            let (x, y) = dims(n, k);
            i.row(y + o.1)[x + o.0]
        };
        for k in 0..across {
            let a: Vec<i32> = (0..na + extra).map(|n| at(&avg, n, k, (ox, oy))).collect();
            let r: Vec<i32> = (0..nr).map(|n| at(&res, n, k, (ox, oy))).collect();
            let mut want = modref::unsqueeze(&a, &r, next.as_ref().map(|i| at(i, 0, k, (0, 0))), prev.as_ref().map(|i| at(i, 3, k, (0, 0))));
            want.truncate(along);
            for n in 0..along {
                assert!(at(&out.data, n, k, (0, 0)) == want[n], "line {k} sample {n} of {along}");
            }
        }
    }
    pub fn defaults() {
        let info = |w, h, meta: bool| (0, ChannelInfo { output_channel_idx: None, size: (w, h), shift: if meta { None } else { Some((0, 0)) }, bit_depth: BitDepth::integer_samples(8) });
        let big = [20, 300, 70000, 1 << 30][vrange(0, 3)];
        let (w, h) = (vrange(1, big), vrange(1, big));
        let mut l = vec![];
        for _ in 0..vrange(0, 2) {
            l.push(info(vrange(1, 300), vrange(1, 4), true));
        }
        for i in 0..vrange(1, 5) {
            let same = i == 0 || vrange(0, 5) > 0;
            l.push(info(if same { w } else { vrange(1, big) }, h, false));
        }
        let refs: Vec<modref::Ch> = l.iter().map(|c| modref::Ch { w: c.1.size.0, h: c.1.size.1, shift: c.1.shift, px: vec![] }).collect();
        let (got, want) = (default_squeeze(&l), modref::default_squeezes(&refs));
        assert!(got.len() == want.len(), "number of default squeezes");
        for (g, t) in got.iter().zip(&want) {
            let modref::Tr::Squeeze { horizontal, in_place, begin, num } = t else { panic!() };
            assert!(g.horizontal == *horizontal && g.in_place == *in_place && g.begin_channel as usize == *begin && g.num_channels as usize == *num, "default squeeze");
        }
    }
}
// kind: sampled(channels up to 90x40, every border combination, the instruction sets of this machine)
sampled!(c17_rows_sampled, { rows::run() });
// kind: sampled(up to 7 channels of up to 2^30 samples a side)
sampled!(c17_default_squeeze_sampled, { rows::defaults() });
