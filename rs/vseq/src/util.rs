pub use tokengeex::*;
pub use vcommon::oracle::{self, T};
pub use vcommon::*;

pub fn toks(v: &[T]) -> Vec<ScoredToken> {
    v.iter().map(|t| ScoredToken::new(t.b.clone(), t.s, t.keep)).collect()
}
pub fn model(v: &[T]) -> Model {
    Model::from(toks(v))
}
pub const PROCS: [&str; 5] = ["crlf", "nfc", "nfd", "nfkc", "nfkd"];
pub fn proc_of(n: &str) -> ProcessorWrapper {
    match n {
        "crlf" => CrlfProcessor.into(),
        "nfc" => UnicodeProcessor::Nfc.into(),
        "nfd" => UnicodeProcessor::Nfd.into(),
        "nfkc" => UnicodeProcessor::Nfkc.into(),
        "nfkd" => UnicodeProcessor::Nfkd.into(),
        _ => unreachable!(),
    }
}
pub fn procs(ns: &[&str]) -> Vec<ProcessorWrapper> {
    ns.iter().map(|n| proc_of(n)).collect()
}
/// Reference processing (Unicode forms straight from the normalisation crate,
/// which C12 compares with an independent table).
pub fn process(ns: &[&str], s: &str) -> String {
    use unicode_normalization::UnicodeNormalization as U;
    let mut s = s.to_string();
    for n in ns {
        s = match *n {
            "crlf" => oracle::crlf(&s),
            "nfc" => U::nfc(s.as_str()).collect(),
            "nfd" => U::nfd(s.as_str()).collect(),
            "nfkc" => U::nfkc(s.as_str()).collect(),
            "nfkd" => U::nfkd(s.as_str()).collect(),
            _ => unreachable!(),
        };
    }
    s
}
pub fn tokenizer(v: &[T], ps: &[&str], specials: &[String]) -> Tokenizer {
    Tokenizer::new(model(v), procs(ps), specials.iter().map(|s| s.as_str()))
}
pub fn es<X>(r: Result<X>) -> std::result::Result<X, String> {
    r.map_err(|e| e.to_string())
}
pub fn bytes_vocab() -> Vec<T> {
    (0..=255u8).map(|b| oracle::t(&[b], -8.0)).collect()
}
/// A dyadic score in [-8, 0) with little chance of ties, from an index.
pub fn dyadic(i: usize) -> f64 {
    -(((i * 37 + 11) % 61) as f64 + 1.0) / 8.0
}
pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// Reference result of a full encode: Ok(list of (special id | stretch text)).
pub fn check_full_encode(base: &[T], ps: &[&str], specials: &[String], text: &str, r: &std::result::Result<Vec<u32>, String>) -> std::result::Result<(), String> {
    let n = base.len() as u32;
    let pieces = oracle::split(text, specials);
    let fail = pieces.iter().any(|p| matches!(p, oracle::Piece::Text(s) if oracle::best(base, process(ps, s).as_bytes()).is_none()));
    let ids = match r {
        Err(e) if fail => {
            let _ = e;
            return Ok(());
        }
        Err(e) => return Err(format!("encoding failed ({}) although every stretch has a segmentation", e)),
        Ok(_) if fail => return Err("encoding succeeded although a stretch has no segmentation".into()),
        Ok(i) => i,
    };
    // ids of empty special tokens carry no text
    let ids: Vec<u32> = ids.iter().copied().filter(|&i| !(i >= n && specials.get((i - n) as usize).map_or(false, |s| s.is_empty()))).collect();
    let mut pos = 0;
    for p in &pieces {
        match p {
            oracle::Piece::Special(k) => {
                if ids.get(pos) != Some(&(n + *k as u32)) {
                    return Err(format!("expected special id {} at index {} of {:?} (pieces {:?})", n + *k as u32, pos, ids, pieces));
                }
                pos += 1;
            }
            oracle::Piece::Text(s) => {
                let end = ids[pos..].iter().position(|&i| i >= n).map_or(ids.len(), |k| pos + k);
                oracle::check_best(base, process(ps, s).as_bytes(), &ids[pos..end]).map_err(|e| format!("stretch {:?}: {} (all ids {:?})", s, e, ids))?;
                pos = end;
            }
        }
    }
    if pos != ids.len() {
        return Err(format!("{} ids too many in {:?} (pieces {:?})", ids.len() - pos, ids, pieces));
    }
    Ok(())
}
