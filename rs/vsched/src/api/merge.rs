use crate::ex::*;
use crate::train::Merge;

pub fn merge(m: &Merge, vocab: &[T], samples: &[String]) -> (Vec<ScoredToken>, Vec<Option<u32>>) {
    let mut md = model(vocab);
    let r: Vec<&str> = samples.iter().map(|s| s.as_str()).collect();
    tgcli::ModelVocabularyMerger::new(regex::Regex::new(m.allow).unwrap(), m.num, m.step, m.scale, m.max_len).merge(&mut md, &r);
    let ids = md.vocab().iter().map(|t| md.token_to_id(&t.value)).collect();
    (md.vocab().to_vec(), ids)
}
