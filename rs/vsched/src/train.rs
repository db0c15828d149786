//! Reference implementations of the training steps, and comparison of results
//! with them. Where the documented result leaves a choice (exact ties) every
//! permitted result is accepted.
use crate::ex::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const EPS: f64 = 1e-7;

pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

// ---------------------------------------------------------------- generate

#[derive(Clone, Debug)]
pub struct Gen {
    pub max_len: usize,
    pub split: Option<&'static str>,
    pub allow: Option<&'static str>,
    pub added: Vec<String>,
    pub suggested: Vec<String>,
}

/// Candidates and listed tokens of one sample.
pub fn sample_tokens(g: &Gen, sample: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let parts: Vec<&str> = match g.split {
        None => vec![sample],
        Some(p) => fancy_regex::Regex::new(p).unwrap().find_iter(sample).map(|m| m.unwrap().as_str()).collect(),
    };
    let allow = g.allow.map(|p| regex::Regex::new(p).unwrap());
    for p in parts {
        for i in 0..p.len() {
            for j in i + 1..=p.len().min(i + g.max_len) {
                if p.is_char_boundary(i) && p.is_char_boundary(j) {
                    let c = &p[i..j];
                    if allow.as_ref().map_or(true, |a| a.is_match(c)) {
                        out.insert(c.to_string());
                    }
                }
            }
        }
    }
    for t in g.added.iter().chain(&g.suggested) {
        if sample.contains(t.as_str()) {
            out.insert(t.clone());
        }
    }
    out
}

/// In how many samples each token occurs, plus one for each time it was listed.
pub fn counts(g: &Gen, samples: &[String]) -> BTreeMap<String, usize> {
    let mut c = BTreeMap::new();
    for t in g.added.iter().chain(&g.suggested) {
        *c.entry(t.clone()).or_insert(0) += 1;
    }
    for s in samples {
        for t in sample_tokens(g, s) {
            *c.entry(t).or_insert(0) += 1;
        }
    }
    c
}

pub struct Split {
    pub bytes: usize,
    /// multi-byte tokens: bytes -> (score, keep)
    pub multi: BTreeMap<Vec<u8>, (f64, bool)>,
    pub byte_score: f64,
}

/// What must hold of any generated vocabulary.
pub fn generated_shape(v: &[ScoredToken]) -> std::result::Result<Split, String> {
    let mut seen = BTreeSet::new();
    let mut multi = BTreeMap::new();
    let mut byte_score = None;
    let mut bytes = 0;
    let mut sum = 0.0;
    for (i, t) in v.iter().enumerate() {
        if t.value.is_empty() {
            return Err("an empty token was generated".into());
        }
        if !seen.insert(t.value.clone()) {
            return Err(format!("token {:?} was generated twice", lossy(&t.value)));
        }
        if !t.score.is_finite() {
            return Err(format!("token {:?} has score {}", lossy(&t.value), t.score));
        }
        if i > 0 && t.score > v[i - 1].score {
            return Err(format!("scores not descending: {} follows {}", t.score, v[i - 1].score));
        }
        sum += t.score.exp();
        if t.value.len() == 1 {
            bytes += 1;
            if !t.keep {
                return Err(format!("single byte {:#x} is not marked keep", t.value[0]));
            }
            let s = *byte_score.get_or_insert(t.score);
            if (s - t.score).abs() > 1e-9 {
                return Err("single bytes have different scores".into());
            }
        } else {
            multi.insert(t.value.clone(), (t.score, t.keep));
        }
    }
    for b in (0..=0xbfu8).chain(0xc2..=0xf4) {
        if !seen.contains(&vec![b]) {
            return Err(format!("single byte {:#x} is missing", b));
        }
    }
    if (sum - 1.0).abs() > 1e-9 {
        return Err(format!("the scores are not normalised: probabilities sum to {}", sum));
    }
    Ok(Split { bytes, multi, byte_score: byte_score.unwrap() })
}

/// The result of generate(size) against exact counts.
pub fn check_generated(g: &Gen, c: &BTreeMap<String, usize>, size: usize, v: &[ScoredToken]) -> Res {
    let s = generated_shape(v)?;
    let high = c.values().copied().max().unwrap_or(1);
    let mut must: Vec<String> = vec![];
    for t in g.added.iter().chain(&g.suggested) {
        if t.len() > 1 && !must.contains(t) {
            must.push(t.clone());
        }
    }
    must.truncate(size.saturating_sub(s.bytes));
    for t in &must {
        let keep = g.added.contains(t);
        match s.multi.get(t.as_bytes()) {
            None => return Err(format!("listed token {:?} is missing although there is room", t)),
            Some((_, k)) if *k != keep => return Err(format!("listed token {:?} has keep mark {}, expected {}", t, k, keep)),
            _ => {}
        }
    }
    for (b, (sc, keep)) in &s.multi {
        let t = String::from_utf8(b.clone()).map_err(|_| format!("{} is not cut on character boundaries", hex(b)))?;
        let n = match c.get(&t) {
            Some(n) => *n,
            None => return Err(format!("{:?} is neither listed nor an allowed substring of a sample", t)),
        };
        if !must.contains(&t) && *keep {
            return Err(format!("{:?} is marked keep", t));
        }
        let want = (n as f64 * b.len() as f64 / high as f64).ln();
        if (sc - s.byte_score - want).abs() > 1e-9 {
            let got = (sc - s.byte_score).exp() * high as f64 / b.len() as f64;
            return Err(format!("{:?} occurs in {} samples (highest count {}) but its score says {:.4}", t, n, high, got));
        }
    }
    // best candidates, up to the size
    let mut cand: Vec<(&String, usize)> = c.iter().filter(|(t, _)| t.len() > 1 && !must.contains(t)).map(|(t, n)| (t, *n)).collect();
    cand.sort_by(|a, b| b.1.cmp(&a.1));
    let room = size.saturating_sub(s.bytes + must.len()).min(cand.len());
    let got = s.multi.len() - must.len();
    if got != room {
        return Err(format!("{} tokens generated, {} requested, {} exist", v.len(), size, s.bytes + must.len() + cand.len()));
    }
    let worst_in = cand.iter().filter(|(t, _)| s.multi.contains_key(t.as_bytes())).map(|x| x.1).min();
    let best_out = cand.iter().filter(|(t, _)| !s.multi.contains_key(t.as_bytes())).max_by_key(|x| x.1);
    if let (Some(i), Some(o)) = (worst_in, best_out) {
        if o.1 > i {
            return Err(format!("{:?}, found in {} samples, was left out for a token found in {}", o.0, o.1, i));
        }
    }
    Ok(())
}

/// The counts a result with insert probability below 1 shows; every one must be
/// a whole number no larger than the exact count.
pub fn check_lower(g: &Gen, c: &BTreeMap<String, usize>, v: &[ScoredToken]) -> std::result::Result<BTreeMap<Vec<u8>, usize>, String> {
    let s = generated_shape(v)?;
    let high = c.values().copied().max().unwrap_or(1);
    let mut why = String::new();
    'h: for h in 1..=high {
        let mut out = BTreeMap::new();
        for (b, (sc, _)) in &s.multi {
            let f = (sc - s.byte_score).exp() * h as f64 / b.len() as f64;
            let n = f.round() as usize;
            if (f - n as f64).abs() > 1e-6 {
                continue 'h;
            }
            let t = lossy(b);
            let max = c.get(&t).copied().unwrap_or(0);
            let min = g.added.iter().chain(&g.suggested).filter(|x| **x == t).count().max(1);
            if n < min || n > max {
                why = format!("{:?} counted {} times, at most {} possible", t, n, max);
                continue 'h;
            }
            if n > h {
                continue 'h;
            }
            out.insert(b.clone(), n);
        }
        for t in g.added.iter().chain(&g.suggested) {
            if t.len() > 1 && !out.contains_key(t.as_bytes()) {
                return Err(format!("listed token {:?} is missing", t));
            }
        }
        return Ok(out);
    }
    Err(if why.is_empty() { "no whole-number counts fit the scores".into() } else { why })
}

// -------------------------------------------------------------------- mine

pub fn check_mined(want: &BTreeMap<String, usize>, n: usize, got: &[(String, usize)]) -> Res {
    let mut seen = BTreeSet::new();
    for (i, (t, c)) in got.iter().enumerate() {
        if !seen.insert(t.clone()) {
            return Err(format!("{:?} is reported twice", t));
        }
        let w = want.get(t).copied().unwrap_or(0);
        if w != *c {
            return Err(format!("{:?} is reported with count {}, it occurs {} times", t, c, w));
        }
        if i > 0 && got[i - 1].1 < *c {
            return Err(format!("counts not descending: {:?}", got));
        }
    }
    if got.len() != n.min(want.len()) {
        return Err(format!("{} of {} matches reported, {} requested", got.len(), want.len(), n));
    }
    let low = got.last().map_or(usize::MAX, |x| x.1);
    for (t, c) in want {
        if n > 0 && *c > low && !seen.contains(t) {
            return Err(format!("{:?} ({} times) was left out for one with {}", t, c, low));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- merge

/// Best segmentation; None if there is none; Err if two are equally good.
pub fn unique_best(vocab: &[T], text: &[u8]) -> std::result::Result<Option<Vec<usize>>, ()> {
    // value, path count within EPS
    let n = text.len();
    let mut best: Vec<Option<(f64, Option<(usize, usize)>, bool)>> = vec![None; n + 1];
    best[0] = Some((0.0, None, false));
    let mut by_first: HashMap<u8, Vec<usize>> = HashMap::new();
    for (k, t) in vocab.iter().enumerate() {
        if let Some(f) = t.b.first() {
            by_first.entry(*f).or_default().push(k);
        }
    }
    for i in 0..n {
        let Some((s, _, amb)) = best[i] else { continue };
        for &k in by_first.get(&text[i]).map_or(&[][..], |v| v) {
            let t = &vocab[k];
            if !text[i..].starts_with(&t.b) {
                continue;
            }
            let j = i + t.b.len();
            let c = s + t.s;
            match best[j] {
                None => best[j] = Some((c, Some((i, k)), amb)),
                Some((o, _, a)) => {
                    if (c - o).abs() < EPS {
                        let hi = c.max(o);
                        let keep = best[j].unwrap().1;
                        best[j] = Some((hi, keep, true || a));
                    } else if c > o {
                        best[j] = Some((c, Some((i, k)), amb));
                    }
                }
            }
        }
    }
    let Some((_, _, _)) = best[n] else { return Ok(None) };
    let mut out = vec![];
    let mut j = n;
    while j > 0 {
        let (_, p, a) = best[j].unwrap();
        if a {
            return Err(());
        }
        let (i, k) = p.unwrap();
        out.push(k);
        j = i;
    }
    out.reverse();
    Ok(Some(out))
}

#[derive(Clone, Debug)]
pub struct Merge {
    pub allow: &'static str,
    pub num: usize,
    pub step: usize,
    pub scale: f64,
    pub max_len: usize,
}

/// Follows the appended tokens round by round. Ok(false): a tie between
/// segmentations makes the expected counts ambiguous.
pub fn check_merged(m: &Merge, before: &[T], samples: &[String], after: &[ScoredToken], ids: &dyn Fn(&[u8]) -> Option<u32>) -> std::result::Result<bool, String> {
    let allow = regex::Regex::new(m.allow).unwrap();
    for (i, t) in before.iter().enumerate() {
        let a = after.get(i).ok_or("tokens are missing after merging")?;
        if a.value != t.b || a.score != t.s || a.keep != t.keep {
            return Err(format!("token {} was {:?} and is now {:?} (score {}, keep {})", i, t, lossy(&a.value), a.score, a.keep));
        }
    }
    let new = &after[before.len()..];
    if new.len() > m.num {
        return Err(format!("{} tokens appended, at most {} requested", new.len(), m.num));
    }
    for (i, t) in after.iter().enumerate() {
        if ids(&t.value) != Some(i as u32) {
            return Err(format!("token {:?} at position {} has id {:?}", lossy(&t.value), i, ids(&t.value)));
        }
    }
    let mut vocab: Vec<T> = before.to_vec();
    let mut done = 0;
    while done < m.num {
        // pairs under the vocabulary at the start of the round
        let mut pairs: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for s in samples {
            match unique_best(&vocab, s.as_bytes()) {
                Err(()) => return Ok(false),
                Ok(None) => return Err(format!("{:?} cannot be encoded any more", s)),
                Ok(Some(p)) => {
                    for w in p.windows(2) {
                        *pairs.entry((w[0], w[1])).or_insert(0) += 1;
                    }
                }
            }
        }
        // value -> (highest count of a pair giving it, scores of those pairs)
        let mut vals: BTreeMap<Vec<u8>, (usize, Vec<f64>)> = BTreeMap::new();
        for (&(a, b), &n) in &pairs {
            let v = [vocab[a].b.clone(), vocab[b].b.clone()].concat();
            if v.len() > m.max_len || vocab.iter().any(|t| t.b == v) || !allow.is_match(&lossy(&v)) {
                continue;
            }
            let sc = (vocab[a].s + vocab[b].s) * m.scale;
            let e = vals.entry(v).or_insert((0, vec![]));
            if n > e.0 {
                *e = (n, vec![sc]);
            } else if n == e.0 {
                e.1.push(sc);
            }
        }
        let k = m.step.min(m.num - done).min(vals.len());
        if k == 0 {
            break;
        }
        if new.len() < done + k {
            return Err(format!("merging stopped after {} tokens although {} pairs were left, e.g. {:?}", new.len(), vals.len(), vals.iter().next().map(|(v, n)| (lossy(v), n.0))));
        }
        let round = &new[done..done + k];
        let mut last = usize::MAX;
        let mut taken = BTreeSet::new();
        for t in round {
            let (n, scores) = vals.get(&t.value).ok_or_else(|| format!("{:?} was appended but is no allowed new pair of the round starting with {} tokens", lossy(&t.value), vocab.len()))?;
            if !taken.insert(t.value.clone()) {
                return Err(format!("{:?} was appended twice", lossy(&t.value)));
            }
            if t.keep {
                return Err(format!("merged token {:?} is marked keep", lossy(&t.value)));
            }
            if !scores.iter().any(|s| (s - t.score).abs() < 1e-9 * s.abs().max(1.0)) {
                return Err(format!("{:?} has score {}, expected {:?}", lossy(&t.value), t.score, scores));
            }
            if *n > last {
                return Err(format!("{:?} ({} times) comes after a rarer pair ({})", lossy(&t.value), n, last));
            }
            last = *n;
        }
        for (v, (n, _)) in &vals {
            if *n > last && !taken.contains(v) {
                return Err(format!("{:?} ({} times) was passed over for a pair seen {} times", lossy(v), n, last));
            }
        }
        for t in round {
            vocab.push(T { b: t.value.clone(), s: t.score, keep: t.keep });
        }
        done += k;
    }
    if new.len() != done {
        return Err(format!("{} tokens appended, {} expected", new.len(), done));
    }
    Ok(true)
}

// ------------------------------------------------------------------- prune

pub fn digamma(mut x: f64) -> f64 {
    // recurrence up to 40, then the asymptotic series
    let mut r = 0.0;
    while x < 40.0 {
        r -= 1.0 / x;
        x += 1.0;
    }
    let i = 1.0 / (x * x);
    r + x.ln() - 0.5 / x - i * (1.0 / 12.0 - i * (1.0 / 120.0 - i * (1.0 / 252.0 - i / 240.0)))
}

/// Expected counts over all segmentations of all samples.
pub fn expected(vocab: &[T], samples: &[String]) -> Vec<f64> {
    let mut e = vec![0.0; vocab.len()];
    let p: Vec<f64> = vocab.iter().map(|t| t.s.exp()).collect();
    for s in samples {
        let x = s.as_bytes();
        let n = x.len();
        if n > 60 {
            expected_long(vocab, x, &mut e);
            continue;
        }
        // scaled per position by exp(shift * length) to stay in range
        let mut a = vec![0.0f64; n + 1];
        let mut b = vec![0.0f64; n + 1];
        let k = 4.0f64.exp();
        let w = |t: usize| p[t] * k.powi(vocab[t].b.len() as i32);
        a[0] = 1.0;
        b[n] = 1.0;
        for i in 0..n {
            for (t, v) in vocab.iter().enumerate() {
                if !v.b.is_empty() && x[i..].starts_with(&v.b) {
                    a[i + v.b.len()] += a[i] * w(t);
                }
            }
        }
        for i in (0..n).rev() {
            for (t, v) in vocab.iter().enumerate() {
                if !v.b.is_empty() && x[i..].starts_with(&v.b) {
                    b[i] += b[i + v.b.len()] * w(t);
                }
            }
        }
        for i in 0..n {
            for (t, v) in vocab.iter().enumerate() {
                if !v.b.is_empty() && x[i..].starts_with(&v.b) {
                    e[t] += a[i] * w(t) * b[i + v.b.len()] / a[n];
                }
            }
        }
    }
    e
}

/// The same with every partial sum divided by the largest one near it.
fn expected_long(vocab: &[T], x: &[u8], e: &mut [f64]) {
    let n = x.len();
    // tokens that match at each position
    let at: Vec<Vec<(usize, usize)>> = (0..n)
        .map(|i| vocab.iter().enumerate().filter(|(_, v)| !v.b.is_empty() && x[i..].starts_with(&v.b)).map(|(t, v)| (t, i + v.b.len())).collect())
        .collect();
    let add = |m: &mut f64, y: f64| {
        if *m == f64::NEG_INFINITY {
            *m = y
        } else if y != f64::NEG_INFINITY {
            let hi = m.max(y);
            *m = hi + ((*m - hi).exp() + (y - hi).exp()).ln();
        }
    };
    let mut a = vec![f64::NEG_INFINITY; n + 1];
    let mut b = vec![f64::NEG_INFINITY; n + 1];
    a[0] = 0.0;
    b[n] = 0.0;
    for i in 0..n {
        for &(t, j) in &at[i] {
            let y = a[i] + vocab[t].s;
            add(&mut a[j], y);
        }
    }
    for i in (0..n).rev() {
        for &(t, j) in &at[i] {
            let y = b[j] + vocab[t].s;
            add(&mut b[i], y);
        }
    }
    for i in 0..n {
        for &(t, j) in &at[i] {
            e[t] += (a[i] + vocab[t].s + b[j] - a[n]).exp();
        }
    }
}

/// None: an expected count is too close to the threshold to call.
pub fn mstep(vocab: &[T], e: &[f64]) -> Option<Vec<T>> {
    if e.iter().zip(vocab).any(|(x, t)| !t.keep && (x - 0.5).abs() < 1e-6) {
        return None;
    }
    let kept: Vec<(T, f64)> = vocab.iter().zip(e).filter(|(t, x)| t.keep || **x >= 0.5).map(|(t, x)| (t.clone(), x.max(0.5))).collect();
    let total: f64 = kept.iter().map(|x| x.1).sum();
    let ld = digamma(total);
    Some(kept.into_iter().map(|(t, x)| T { s: digamma(x) - ld, ..t }).collect())
}

/// All segmentations of `text` with their scores, best first.
fn ranked(vocab: &[T], text: &[u8]) -> Vec<(f64, Vec<u32>)> {
    let mut v: Vec<(f64, Vec<u32>)> = oracle::segmentations(vocab, text)
        .into_iter()
        .map(|s| (s.iter().map(|&i| vocab[i as usize].s).sum(), s))
        .collect();
    v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    v
}

#[derive(Clone, Debug)]
pub struct Prune {
    pub size: usize,
    pub shrink: f64,
    pub em: usize,
}

/// One likelihood-based selection. None: some choice is too close to call.
pub fn select(vocab: &[T], samples: &[String], p: &Prune) -> Option<Vec<T>> {
    let size = ((vocab.len() as f64 * p.shrink) as usize).min(vocab.len().saturating_sub(1)).max(p.size);
    let mut freq = vec![0usize; vocab.len()];
    for s in samples {
        for k in unique_best(vocab, s.as_bytes()).ok()?? {
            freq[k] += 1;
        }
    }
    let sum: usize = freq.iter().sum();
    let mut out: Vec<T> = vec![];
    let mut cand: Vec<(f64, usize)> = vec![];
    for (id, t) in vocab.iter().enumerate() {
        if t.keep {
            out.push(t.clone());
            continue;
        }
        let r = ranked(vocab, &t.b);
        let me = r.iter().position(|x| x.1.len() == 1).unwrap();
        if r.iter().enumerate().any(|(i, x)| i != me && (x.0 - r[me].0).abs() < EPS) {
            return None;
        }
        if r.len() == 1 {
            out.push(t.clone());
        } else if me == 0 && freq[id] > 0 {
            if r.len() > 2 && (r[1].0 - r[2].0).abs() < EPS {
                return None;
            }
            let f = freq[id] as f64;
            let alt = &r[1].1;
            let lp = f.ln() - (sum as f64).ln();
            let al = (sum as f64 + f * (alt.len() as f64 - 1.0)).ln();
            let ap: f64 = alt.iter().map(|&a| (freq[a as usize] as f64 + f).ln() - al).sum();
            cand.push((f * (lp - ap), id));
        }
    }
    cand.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let room = size.saturating_sub(out.len()).min(cand.len());
    if room > 0 && room < cand.len() && (cand[room - 1].0 - cand[room].0).abs() < EPS {
        return None;
    }
    out.extend(cand[..room].iter().map(|c| vocab[c.1].clone()));
    Some(out)
}

/// The whole of pruning without dropout. None: too close to call somewhere.
pub fn pruned(vocab: &[T], samples: &[String], p: &Prune) -> Option<Vec<T>> {
    let mut v = vocab.to_vec();
    while v.len() > p.size {
        let n = v.len();
        for _ in 0..p.em {
            let e = expected(&v, samples);
            v = mstep(&v, &e)?;
        }
        v = select(&v, samples, p)?;
        if v.len() >= n {
            break;
        }
    }
    Some(v)
}

pub fn same_vocab(want: &[T], got: &[ScoredToken]) -> Res {
    let key = |b: &[u8]| lossy(b);
    let w: BTreeMap<&Vec<u8>, (f64, bool)> = want.iter().map(|t| (&t.b, (t.s, t.keep))).collect();
    let g: BTreeMap<&Vec<u8>, (f64, bool)> = got.iter().map(|t| (&t.value, (t.score, t.keep))).collect();
    if g.len() != got.len() {
        return Err("a token occurs twice".into());
    }
    for b in w.keys() {
        if !g.contains_key(b) {
            return Err(format!("{:?} was removed, it should have been kept (expected {:?}, got {:?})", key(b), w.keys().map(|b| key(b)).collect::<Vec<_>>(), g.keys().map(|b| key(b)).collect::<Vec<_>>()));
        }
    }
    for (b, (s, k)) in &g {
        match w.get(b) {
            None => return Err(format!("{:?} was kept, it should have been removed (expected {:?}, got {:?})", key(b), w.keys().map(|b| key(b)).collect::<Vec<_>>(), g.keys().map(|b| key(b)).collect::<Vec<_>>())),
            Some((ws, wk)) => {
                if wk != k {
                    return Err(format!("{:?} changed its keep mark to {}", key(b), k));
                }
                if !((ws - s).abs() <= 1e-6 * ws.abs().max(1.0)) {
                    return Err(format!("{:?} has score {}, expected {}", key(b), s, ws));
                }
            }
        }
    }
    Ok(())
}

/// What must hold of any pruned vocabulary.
pub fn check_pruned(before: &[T], p: &Prune, after: &[ScoredToken]) -> Res {
    if before.len() <= p.size {
        let same = after.len() == before.len() && after.iter().zip(before).all(|(a, b)| a.value == b.b && a.score == b.s && a.keep == b.keep);
        return if same { Ok(()) } else { Err("a vocabulary already small enough was changed".into()) };
    }
    let old: BTreeMap<&Vec<u8>, &T> = before.iter().map(|t| (&t.b, t)).collect();
    let mut seen = BTreeSet::new();
    for t in after {
        let o = old.get(&t.value).ok_or_else(|| format!("{:?} was not in the vocabulary before", lossy(&t.value)))?;
        if o.keep != t.keep {
            return Err(format!("{:?} changed its keep mark to {}", lossy(&t.value), t.keep));
        }
        if !seen.insert(&t.value) {
            return Err(format!("{:?} occurs twice", lossy(&t.value)));
        }
        if !t.score.is_finite() || t.score > 1e-9 {
            return Err(format!("{:?} has score {}", lossy(&t.value), t.score));
        }
    }
    for t in before {
        if t.keep && !seen.contains(&t.b) {
            return Err(format!("{:?} is marked keep and was removed", lossy(&t.b)));
        }
    }
    if after.len() > p.size {
        // allowed only if those that must stay do not fit
        let set: std::collections::HashSet<&[u8]> = after.iter().map(|t| &t.value[..]).collect();
        // numbers of segmentations of the prefixes
        let stays = |t: &&ScoredToken| {
            let mut ways = vec![0u64; t.value.len() + 1];
            ways[0] = 1;
            for j in 1..=t.value.len() {
                ways[j] = (0..j).filter(|&i| ways[i] > 0 && set.contains(&t.value[i..j])).fold(0u64, |n, i| n.saturating_add(ways[i]));
            }
            t.keep || ways[t.value.len()] < 2
        };
        let must = after.iter().filter(stays).count();
        if must <= p.size {
            let optional: Vec<String> = after.iter().filter(|t| !stays(t)).take(20).map(|t| lossy(&t.value)).collect();
            return Err(format!("{} tokens are left although {} were requested and only {} must stay; e.g. {:?} could go", after.len(), p.size, must, optional));
        }
    }
    Ok(())
}
