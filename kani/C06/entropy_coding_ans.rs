impl AnsCodes {
    pub fn verif_empty() -> Self {
        AnsCodes { histograms: Vec::new() }
    }
}
impl AnsReader {
    pub fn verif(state: u32) -> Self {
        AnsReader(state)
    }
    pub fn verif_state(&self) -> u32 {
        self.0
    }
}
