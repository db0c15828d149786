use crate::ex::*;
use crate::train::Prune;

pub fn prune(p: &Prune, dropout: f64, vocab: &[T], samples: &[String]) -> std::result::Result<Vec<ScoredToken>, String> {
    let mut m = model(vocab);
    let r: Vec<&str> = samples.iter().map(|s| s.as_str()).collect();
    tgcli::ModelVocabularyPruner::new(p.size, p.shrink, p.em, dropout).prune(&mut m, &r).map_err(|e| e.to_string())?;
    Ok(m.vocab().to_vec())
}
