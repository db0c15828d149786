use crate::ex::*;
use crate::train::Gen;
use tgcli::VocabularyGenerator;

/// Feed the samples in the given pieces and generate.
pub fn produce(g: &Gen, p: f64, feeds: &[&[String]], size: usize) -> Vec<ScoredToken> {
    let mut v = VocabularyGenerator::new(
        g.max_len,
        p,
        g.split.map(|s| fancy_regex::Regex::new(s).unwrap()),
        g.allow.map(|s| regex::Regex::new(s).unwrap()),
        g.added.clone(),
        g.suggested.clone(),
    );
    for f in feeds {
        v.feed(f);
    }
    v.generate(size)
}
