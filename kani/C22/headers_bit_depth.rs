impl BitDepth {
    pub fn verif_float(bits_per_sample: u32, exponent_bits_per_sample: u32) -> BitDepth {
        BitDepth { floating_point_sample: true, bits_per_sample, exponent_bits_per_sample }
    }
}
