pub fn filter(size: usize, min: Option<f64>, force: bool, m: &mut tokengeex::Model) {
    tgcli::VocabularyFilter::new(size, min, force).filter(m)
}
