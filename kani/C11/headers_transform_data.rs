// C11: custom inverse-opsin and upsampling data, flattened.
#[allow(unused_imports)]
use crate::verif::Rd;

/// The defaults the format defines.
fn opsin() -> Vec<f32> {
    vec![
        11.031566901960783, -9.866943921568629, -0.16462299647058826, -3.254147380392157, 4.418770392156863, -0.16462299647058826,
        -3.6588512862745097, 2.7129230470588235, 1.9459282392156863, -0.0037930732552754493, -0.0037930732552754493, -0.0037930732552754493,
        1.0 - 0.05465007330715401, 1.0 - 0.07005449891748593, 1.0 - 0.049935103337343655, 0.145,
    ]
}
pub(crate) fn default() -> Vec<u32> {
    let mut v: Vec<u32> = opsin().iter().map(|x| x.to_bits()).collect();
    v.extend(DEFAULT_KERN_2.iter().chain(&DEFAULT_KERN_4).chain(&DEFAULT_KERN_8).map(|x| x.to_bits()));
    v
}
pub(crate) fn spec<R: Rd>(s: &mut R, xyb: bool) -> Option<Vec<u32>> {
    let mut v = default();
    if s.flag() {
        return Some(v);
    }
    if xyb && !s.flag() {
        for x in v[..16].iter_mut() {
            *x = s.half()?.to_bits();
        }
    }
    let mask = s.get(3);
    for (bit, at, n) in [(1, 16, 15), (2, 31, 55), (4, 86, 210)] {
        if mask & bit != 0 {
            for x in v[at..at + n].iter_mut() {
                *x = s.half()?.to_bits();
            }
        }
    }
    Some(v)
}
pub(crate) fn dump(d: &CustomTransformData) -> Vec<u32> {
    let o = &d.opsin_inverse_matrix;
    o.inverse_matrix.iter().chain(&o.opsin_biases).chain(&o.quant_biases).chain(&d.weights2).chain(&d.weights4).chain(&d.weights8).map(|x| x.to_bits()).collect()
}
