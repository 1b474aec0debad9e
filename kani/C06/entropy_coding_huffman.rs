impl HuffmanCodes {
    pub fn verif_empty() -> Self {
        HuffmanCodes { tables: Vec::new() }
    }
}
