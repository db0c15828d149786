//! C03: dropout.
//!
//! Every draw of the random generator becomes a branch of the exploration:
//! 2^k equally likely values per draw. The leaves of the tree, weighted by
//! their probability, give the exact distribution of results, which is
//! compared with the distribution the statement prescribes: each multi-byte
//! candidate occurrence is omitted independently with probability p.
use crate::api::nodes;
use crate::util::*;
use std::collections::BTreeMap;

type R<X> = std::result::Result<X, String>;

/// Occurrences of multi-byte tokens in the text that lie on some path from
/// the start: (start, token).
fn candidates(v: &[T], text: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    for p in 0..text.len() {
        for (i, t) in v.iter().enumerate() {
            if t.b.len() > 1 && text[p..].starts_with(&t.b) {
                out.push((p, i));
            }
        }
    }
    out
}

/// Best segmentations when the candidates in `omit` may not be used:
/// set of id lists reaching the maximum.
fn bests(v: &[T], text: &[u8], omit: &[(usize, usize)]) -> (f64, Vec<Vec<u32>>) {
    let n = text.len();
    let mut best: Vec<Option<(f64, Vec<Vec<u32>>)>> = vec![None; n + 1];
    best[n] = Some((0.0, vec![vec![]]));
    for i in (0..n).rev() {
        for (k, t) in v.iter().enumerate() {
            if t.b.is_empty() || !text[i..].starts_with(&t.b) || omit.contains(&(i, k)) {
                continue;
            }
            if let Some((s, tails)) = best[i + t.b.len()].clone() {
                let s = s + t.s;
                let mk = |tails: Vec<Vec<u32>>| {
                    tails
                        .into_iter()
                        .map(|mut x| {
                            x.insert(0, k as u32);
                            x
                        })
                        .collect::<Vec<_>>()
                };
                match &mut best[i] {
                    Some((b, l)) if *b == s => l.extend(mk(tails)),
                    Some((b, _)) if *b > s => {}
                    slot => *slot = Some((s, mk(tails))),
                }
            }
        }
    }
    match best[0].take() {
        Some(x) => x,
        None => (f64::NEG_INFINITY, vec![]),
    }
}

/// Distribution prescribed by the statement; None if ties make it ambiguous.
fn wanted(v: &[T], text: &[u8], p: f64) -> Option<BTreeMap<Option<Vec<u32>>, f64>> {
    let c = candidates(v, text);
    let mut d: BTreeMap<Option<Vec<u32>>, f64> = BTreeMap::new();
    for m in 0..1usize << c.len() {
        let omit: Vec<_> = c.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| *x).collect();
        let k = omit.len() as i32;
        let w = p.powi(k) * (1.0 - p).powi(c.len() as i32 - k);
        let (_, l) = bests(v, text, &omit);
        if l.len() > 1 {
            return None;
        }
        *d.entry(l.into_iter().next()).or_insert(0.0) += w;
    }
    Some(d)
}

fn grid(k: u32) -> vx::Rng {
    // the midpoints of 2^k equal intervals of the 64-bit range
    let n = 1u64 << k;
    vx::Rng::Choices((0..n).map(|i| (i << (64 - k)) | 1 << (63 - k)).collect())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Way {
    Model,
    Encode,
    Ordinary,
    Batch,
    OrdBatch,
}

fn run_way(tk: &Tokenizer, way: Way, text: &str, p: f64) -> R<Vec<u32>> {
    match way {
        Way::Model => es(tk.model().encode(text, p)),
        Way::Encode => es(tk.encode(text, p)),
        Way::Ordinary => es(tk.encode_ordinary(text, p)),
        Way::Batch => es(tk.encode_batch(vec![text], p)).map(|mut v| v.remove(0)),
        Way::OrdBatch => es(tk.encode_ordinary_batch(vec![text], p)).map(|mut v| v.remove(0)),
    }
}

/// Distribution of the implementation. `complete` false when capped.
fn measured(h: &mut H, tk: &Tokenizer, v: &[T], way: Way, text: &str, p: f64, rng: vx::Rng, cap: u64) -> R<(BTreeMap<Option<Vec<u32>>, f64>, bool)> {
    let cfg = vx::Config { sched: false, rng, max_execs: cap, ..Default::default() };
    let mut d: BTreeMap<Option<Vec<u32>>, f64> = BTreeMap::new();
    let mut bad = None;
    let st = vx::explore(
        &cfg,
        || run_way(tk, way, text, p),
        |o, tr| {
            let w: f64 = tr.iter().map(|c| 1.0 / c.n as f64).product();
            match o {
                vx::Outcome::Ok(Ok(ids)) => {
                    // every outcome is a valid segmentation, best for some omission
                    let cat: Vec<u8> = ids.iter().flat_map(|&i| v.get(i as usize).map(|t| t.b.clone()).unwrap_or_default()).collect();
                    if cat != text.as_bytes() {
                        bad = Some(format!("draws {}: ids {:?} do not spell {:?}", vx::enc(tr), ids, text));
                    }
                    *d.entry(Some(ids)).or_insert(0.0) += w;
                }
                vx::Outcome::Ok(Err(_)) => *d.entry(None).or_insert(0.0) += w,
                vx::Outcome::Panic(m) => bad = Some(format!("draws {}: panic {}", vx::enc(tr), m)),
                _ => unreachable!(),
            }
            bad.is_none()
        },
    );
    h.traces += st.execs;
    h.trans += st.choice_points;
    h.count("draw_outcomes", st.execs);
    match bad {
        Some(m) => Err(m),
        None => Ok((d, st.complete)),
    }
}

fn compare(v: &[T], text: &str, p: f64, got: &BTreeMap<Option<Vec<u32>>, f64>, tol: f64) -> R<bool> {
    let Some(want) = wanted(v, text.as_bytes(), p) else { return Ok(false) };
    for (k, w) in &want {
        let g = got.get(k).copied().unwrap_or(0.0);
        if (g - w).abs() > tol {
            return Err(format!("text {:?}, dropout {}: result {:?} has probability {} instead of {} (all results {:?}; prescribed {:?})", text, p, k, g, w, got, want));
        }
    }
    for (k, g) in got {
        if !want.contains_key(k) && *g > tol {
            return Err(format!("text {:?}, dropout {}: result {:?} (probability {}) is not the best segmentation for any set of omitted tokens", text, p, k, g));
        }
    }
    Ok(true)
}

pub fn run(h: &mut H) {
    // scores without ties between sums: distinct powers of two
    let toksets: Vec<Vec<&str>> = vec![
        vec!["ab"],
        vec!["ab", "ba"],
        vec!["ab", "abc", "bc"],
        vec!["aa", "aaa"],
        vec!["ab", "bab", "abab"],
        vec!["é", "éa"],
        vec!["ab", "cd", "abcd", "bc"],
    ];
    let singles = |set: &[&str]| -> Vec<T> {
        let mut b: Vec<u8> = set.iter().flat_map(|s| s.bytes()).collect();
        b.sort_unstable();
        b.dedup();
        b.iter().map(|x| oracle::t(&[*x], -1024.0 - *x as f64 / 128.0)).collect()
    };
    let texts_for = |set: &[&str], n: usize| -> Vec<String> {
        let mut l: Vec<String> = set.concat().chars().map(|c| c.to_string()).collect();
        l.sort();
        l.dedup();
        let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
        strings(&l, 0, n)
    };
    let mk = |set: &[&str], good: bool, byte_complete: bool| -> Vec<T> {
        let mut v = if byte_complete { singles(set) } else { singles(&set[..1])[..1].to_vec() };
        for (i, s) in set.iter().enumerate() {
            // `good`: longer tokens win; otherwise single bytes win for some
            let sc = if good { -((1u32 << (i + 2)) as f64) - 0.5 } else { -1024.0 * (s.len() as f64) + ((i as f64) - 1.25) * 64.0 };
            v.push(oracle::t(s.as_bytes(), sc));
        }
        v
    };
    let ps: &[(f64, u32)] = &[(0.5, 1), (0.25, 2), (0.75, 2), (0.125, 3), (0.625, 3)];
    for (si, set) in toksets.iter().enumerate() {
        for good in [true, false] {
            for complete in [true, false] {
                for &(p, k) in ps {
                    let n = h.pick(if set.len() > 3 { 4 } else { 5 }, 6);
                    for text in texts_for(set, n) {
                        let v = mk(set, good, complete);
                        let c = candidates(&v, text.as_bytes()).len();
                        // nothing to draw: covered once
                        if c > 10 || (c == 0 && si > 0) {
                            continue;
                        }
                        let leaves = (1u64 << k).checked_pow(c as u32).unwrap_or(u64::MAX);
                        if leaves > h.pick(5000, 300_000) {
                            continue;
                        }
                        h.case(
                            || format!("tokens {:?} (scores {:?}), text {:?}, dropout {}, every outcome of the draws on a grid of {}", set, v.iter().map(|t| t.s).collect::<Vec<_>>(), text, p, 1 << k),
                            |h| {
                                let tk = tokenizer(&v, &[], &strs(&["<s>"]));
                                h.state(&(si, good, complete, k, &text));
                                for way in [Way::Model, Way::Encode, Way::Ordinary, Way::Batch, Way::OrdBatch] {
                                    let (d, ok) = measured(h, &tk, &v, way, &text, p, grid(k), h.pick(40_000, 2_000_000))?;
                                    if !ok {
                                        h.count("draw_trees_capped", 1);
                                        continue;
                                    }
                                    if complete && d.contains_key(&None) {
                                        return Err(format!("{:?}: encoding {:?} failed for some draws although all single bytes are tokens", way, text));
                                    }
                                    if compare(&v, &text, p, &d, 1e-9).map_err(|e| format!("{:?}: {}", way, e))? {
                                        h.count("distributions_compared", 1);
                                    } else {
                                        h.count("ties_skipped", 1);
                                    }
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
    // one candidate, fine grid: the threshold is p itself
    for p in [0.01, 0.1, 0.2, 0.3, 1.0 / 3.0, 0.5, 0.6, 0.75, 0.9, 0.99, 0.001, 0.999] {
        for way in [Way::Model, Way::Encode, Way::Ordinary, Way::Batch, Way::OrdBatch] {
            for (text, tokn) in [("ab", "ab"), ("éx", "é"), ("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")] {
                h.case(
                    || format!("{:?}: one candidate {:?}, dropout {}, 4096 equally spaced draws", way, tokn, p),
                    |h| {
                        let mut v = bytes_vocab();
                        v.push(oracle::t(tokn.as_bytes(), -1.0));
                        let tk = tokenizer(&v, &[], &[]);
                        let (d, ok) = measured(h, &tk, &v, way, text, p, grid(12), 1 << 22)?;
                        h.state(&(p.to_bits(), way, text));
                        if !ok {
                            return Err("more than one draw for one candidate".into());
                        }
                        compare(&v, text, p, &d, 2.0 / 4096.0).map(|_| ())
                    },
                );
            }
        }
    }
    // several texts: the draws of each are its own, whether they are encoded
    // in one batch, one after the other, or lie between special tokens of one
    // text; the joint distribution is the product
    {
        let set = ["ab", "ba"];
        let v = mk(&set, true, true);
        let words = ["ab", "ba", "aba", "b", ""];
        let pairs = seqs(&words, 2, h.pick(3, 4));
        for &(p, k) in &ps[..2] {
            for ws in &pairs {
                let c: usize = ws.iter().map(|w| candidates(&v, w.as_bytes()).len()).sum();
                if c == 0 || (1u64 << k).checked_pow(c as u32).unwrap_or(u64::MAX) > h.pick(5000, 300_000) {
                    continue;
                }
                h.case(
                    || format!("texts {:?} encoded together, dropout {}: every outcome of the draws", ws, p),
                    |h| {
                        let mut want: BTreeMap<Vec<Vec<u32>>, f64> = BTreeMap::from([(vec![], 1.0)]);
                        for w in ws {
                            let Some(d) = wanted(&v, w.as_bytes(), p) else { return Err("ambiguous".into()) };
                            want = want
                                .into_iter()
                                .flat_map(|(k, x)| {
                                    d.iter().map(move |(r, y)| {
                                        let mut k = k.clone();
                                        k.push(r.clone().unwrap());
                                        (k, x * y)
                                    }).collect::<Vec<_>>()
                                })
                                .collect();
                        }
                        h.state(&("joint", k, ws));
                        for way in 0..9usize {
                            let mut d: BTreeMap<Vec<Vec<u32>>, f64> = BTreeMap::new();
                            let cfg = vx::Config { sched: false, rng: grid(k), max_execs: h.pick(40_000, 2_000_000), ..Default::default() };
                            let mut bad = None;
                            let st = vx::explore(
                                &cfg,
                                || -> R<Vec<Vec<u32>>> {
                                    let tk = tokenizer(&v, &[], &strs(&["<s>"]));
                                    let each = |f: &dyn Fn(usize, &str) -> R<Vec<u32>>| ws.iter().enumerate().map(|(i, w)| f(i, w)).collect::<R<Vec<_>>>();
                                    match way {
                                        0 => es(tk.encode_batch(ws.clone(), p)),
                                        1 => es(tk.encode_ordinary_batch(ws.clone(), p)),
                                        2 => each(&|_, w| es(tk.encode(w, p))),
                                        3 => each(&|_, w| es(tk.encode_ordinary(w, p))),
                                        4 => each(&|_, w| es(tk.model().encode(w, p))),
                                        5 => each(&|i, w| run_way(&tk, [Way::OrdBatch, Way::Encode, Way::Batch, Way::Model][i % 4], w, p)),
                                        6 => each(&|i, w| run_way(&tk.clone(), [Way::Encode, Way::Batch][i % 2], w, p)),
                                        7 => each(&|_, w| {
                                            // first without dropout, then with
                                            let _ = tk.encode(w, 0.0);
                                            let _ = tk.encode_batch(vec![w], -1.0);
                                            es(tk.encode(w, p))
                                        }),
                                        _ => {
                                            let ids = es(tk.encode(&ws.join("<s>"), p))?;
                                            Ok(ids.split(|&i| i == v.len() as u32).map(|x| x.to_vec()).collect())
                                        }
                                    }
                                },
                                |o, tr| {
                                    match o {
                                        vx::Outcome::Ok(Ok(r)) => *d.entry(r).or_insert(0.0) += tr.iter().map(|c| 1.0 / c.n as f64).product::<f64>(),
                                        vx::Outcome::Ok(Err(e)) => bad = Some(format!("draws {}: {}", vx::enc(tr), e)),
                                        vx::Outcome::Panic(e) => bad = Some(format!("draws {}: panic {}", vx::enc(tr), e)),
                                        _ => unreachable!(),
                                    }
                                    bad.is_none()
                                },
                            );
                            h.traces += st.execs;
                            h.trans += st.choice_points;
                            h.count("draw_outcomes", st.execs);
                            if let Some(b) = bad {
                                return Err(format!("way {}: {}", way, b));
                            }
                            if !st.complete {
                                h.count("draw_trees_capped", 1);
                                continue;
                            }
                            let keys: std::collections::BTreeSet<_> = want.keys().chain(d.keys()).cloned().collect();
                            for key in keys {
                                let (a, b) = (d.get(&key).copied().unwrap_or(0.0), want.get(&key).copied().unwrap_or(0.0));
                                if (a - b).abs() > 1e-9 {
                                    return Err(format!("way {}: the results {:?} have probability {} instead of {}", way, key, a, b));
                                }
                            }
                            h.count("joint_distributions_compared", 1);
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // lattice nodes under dropout: every subset of the multi-byte candidates,
    // each with the right probability; single bytes always there
    for (si, set) in toksets.iter().enumerate() {
        for &(p, k) in &ps[..3] {
            for text in texts_for(set, 4) {
                let v = mk(set, true, true);
                let c = candidates(&v, text.as_bytes());
                if c.len() > 6 || (1u64 << k).pow(c.len() as u32) > h.pick(5000, 300_000) || c.is_empty() {
                    continue;
                }
                h.case(
                    || format!("lattice of {:?} with tokens {:?}, dropout {}, every outcome of the draws", text, set, p),
                    |h| {
                        let m = model(&v);
                        let mut d: BTreeMap<Vec<(usize, u32)>, f64> = BTreeMap::new();
                        let cfg = vx::Config { sched: false, rng: grid(k), max_execs: 2_000_000, ..Default::default() };
                        let mut bad = None;
                        let st = vx::explore(
                            &cfg,
                            || {
                                let mut nodes = nodes(&m, text.as_bytes(), p);
                                nodes.sort();
                                nodes
                            },
                            |o, tr| match o {
                                vx::Outcome::Ok(nodes) => {
                                    *d.entry(nodes).or_insert(0.0) += tr.iter().map(|c| 1.0 / c.n as f64).product::<f64>();
                                    true
                                }
                                vx::Outcome::Panic(e) => {
                                    bad = Some(e);
                                    false
                                }
                                _ => unreachable!(),
                            },
                        );
                        h.traces += st.execs;
                        h.trans += st.choice_points;
                        h.state(&("lat", si, k, &text));
                        if let Some(b) = bad {
                            return Err(b);
                        }
                        let mut want: BTreeMap<Vec<(usize, u32)>, f64> = BTreeMap::new();
                        let mut one: Vec<(usize, u32)> = Vec::new();
                        for (i, ch) in text.as_bytes().iter().enumerate() {
                            for (k, t) in v.iter().enumerate() {
                                if t.b == [*ch] {
                                    one.push((i, k as u32));
                                }
                            }
                        }
                        for mset in 0..1usize << c.len() {
                            let mut nodes = one.clone();
                            nodes.extend(c.iter().enumerate().filter(|(i, _)| mset >> i & 1 == 0).map(|(_, x)| (x.0, x.1 as u32)));
                            nodes.sort();
                            let k = mset.count_ones() as i32;
                            *want.entry(nodes).or_insert(0.0) += p.powi(k) * (1.0 - p).powi(c.len() as i32 - k);
                        }
                        let keys: std::collections::BTreeSet<_> = want.keys().chain(d.keys()).cloned().collect();
                        for key in keys {
                            let (a, b) = (d.get(&key).copied().unwrap_or(0.0), want.get(&key).copied().unwrap_or(0.0));
                            if (a - b).abs() > 1e-9 {
                                return Err(format!("nodes {:?} have probability {} instead of {}", key, a, b));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // the ends of the range: p <= 0 and p >= 1 leave nothing to chance
    let mut v = bytes_vocab();
    for (i, s) in ["ab", "ba", "aba", "é", "<s>", "bb", "abba", "b<", "e\u{301}"].iter().enumerate() {
        v.push(oracle::t(s.as_bytes(), dyadic(i)));
    }
    let tk = tokenizer(&v, &["crlf"], &strs(&["<s>"]));
    let texts = strings(&["a", "b", "é", "<s>", "\r\n"], 0, h.pick(5, 6));
    for chunk in texts.chunks(50) {
        h.case(
            || format!("dropout <= 0 and >= 1, every way of encoding, 50 texts starting with {:?}", chunk[0]),
            |h| {
                for text in chunk {
                    h.state(&("ends", text));
                    for way in [Way::Model, Way::Encode, Way::Ordinary, Way::Batch, Way::OrdBatch] {
                        let base = run_way(&tk, way, text, 0.0);
                        for p in [-0.0, -1.0, -1e-300, f64::NEG_INFINITY, 1.0, 1.5, 1e300, f64::INFINITY] {
                            // any draw at all must not matter: extreme and middle values
                            for d in [0u64, u64::MAX, 1 << 63, 1 << 11] {
                                let r = vx::with_fixed_rng(d, || run_way(&tk, way, text, p));
                                h.traces += 1;
                                h.trans += 1;
                                if p <= 0.0 && r != base {
                                    return Err(format!("{:?} of {:?} at dropout {} (draws {:#x}) gives {:?}, without dropout {:?}", way, text, p, d, r, base));
                                }
                                if p >= 1.0 {
                                    let ids = r.map_err(|e| format!("{:?} of {:?} at dropout {} failed: {}", way, text, p, e))?;
                                    if ids.iter().any(|&i| i < 256 + 9 && i >= 256) {
                                        return Err(format!("{:?} of {:?} at dropout {} (draws {:#x}) uses a multi-byte token: {:?}", way, text, p, d, ids));
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // many candidates: with every draw on one side, then all but one, all but
    // two: one draw decides one occurrence, however many there are
    for (n, bound) in [(9usize, 2u32), (33, 2), (40, 3), (65, 2), (70, 2), (129, 1), (257, 1), (300, 1), (1025, 1), (1100, 1), (1500, 1)] {
        if h.quick() && bound == 3 {
            continue;
        }
        for (first, second) in [(u64::MAX / 8 * 7, u64::MAX / 8), (u64::MAX / 8, u64::MAX / 8 * 7)] {
            for way in 0..8usize {
                if n > 500 && h.quick() && (n / 100 + way) % 3 != 0 {
                    continue;
                }
                h.case(
                    || format!("{} occurrences of one token (encoded in way {}), all draws {:#x} except at most {} of {:#x}", n, way, first, bound, second),
                    |h| {
                        let mut v = bytes_vocab();
                        v.push(oracle::t(b"ab", -1.0));
                        let tk = tokenizer(&v, &[], &strs(&["<s>"]));
                        let p = 0.5;
                        let mut base: Option<Vec<bool>> = None;
                        let mut seen: std::collections::HashMap<Vec<usize>, u64> = Default::default();
                        let mut bad = None;
                        let cfg = vx::Config { sched: false, rng: vx::Rng::Costed(vec![first, second]), bound, ..Default::default() };
                        let st = vx::explore(
                            &cfg,
                            || -> R<Vec<bool>> {
                                occurrences(&tk, way, n, p)
                            },
                            |o, tr| {
                                let dev = tr.iter().filter(|c| c.chosen != 0).count();
                                let got = match o {
                                    vx::Outcome::Ok(Ok(r)) => r,
                                    vx::Outcome::Ok(Err(e)) | vx::Outcome::Panic(e) => {
                                        bad = Some(e);
                                        return false;
                                    }
                                    _ => unreachable!(),
                                };
                                if got.len() != n {
                                    bad = Some(format!("{} occurrences accounted for", got.len()));
                                } else if dev == 0 {
                                    if got.iter().any(|x| *x != got[0]) {
                                        bad = Some(format!("with equal draws, {} of {} occurrences are left out", got.iter().filter(|x| **x).count(), n));
                                    }
                                    base = Some(got);
                                } else {
                                    let b = base.as_ref().unwrap();
                                    let d: Vec<usize> = (0..n).filter(|&i| got[i] != b[i]).collect();
                                    if d.len() != dev {
                                        bad = Some(format!("changing {} draw(s) changes what happens to {} occurrences ({:?}...)", dev, d.len(), &d[..d.len().min(5)]));
                                    }
                                    *seen.entry(d).or_insert(0) += 1;
                                }
                                bad.is_none()
                            },
                        );
                        h.traces += st.execs;
                        h.trans += st.choice_points;
                        h.count("draw_outcomes", st.execs);
                        h.state(&("many", n, way, first));
                        if let Some(b) = bad {
                            return Err(b);
                        }
                        if let Some((d, k)) = seen.iter().find(|(_, k)| **k != 1) {
                            return Err(format!("the occurrences {:?} are changed by {} different sets of draws", d, k));
                        }
                        for i in 0..n {
                            if !seen.contains_key(&vec![i]) {
                                return Err(format!("occurrence {} does not depend on any draw", i));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // the same for larger numbers: in run j, draw i has bit j of i, so that an
    // occurrence spells the number of the draw it depends on
    for n in [2048usize, 4097, 10_001, 33_000, 70_001, 140_000] {
        for way in 0..8usize {
            if n > 80_000 && h.quick() {
                continue;
            }
            h.case(
                || format!("{} occurrences of one token (encoded in way {}), every bit of the number of a draw", n, way),
                |h| {
                    let mut v = bytes_vocab();
                    v.push(oracle::t(b"ab", -1.0));
                    let tk = tokenizer(&v, &[], &strs(&["<s>"]));
                    let mut code = vec![0u32; n];
                    for j in 0..20 {
                        let got = vx::with_numbered_rng(j, u64::MAX / 8, u64::MAX / 8 * 7, || occurrences(&tk, way, n, 0.5))?;
                        if got.len() != n {
                            return Err(format!("{} occurrences accounted for", got.len()));
                        }
                        for (c, g) in code.iter_mut().zip(got) {
                            *c |= (g as u32) << j;
                        }
                        h.trans += n as u64;
                    }
                    h.traces += 20;
                    h.count("draw_outcomes", 20);
                    h.state(&("numbered", n, way));
                    let mut seen = std::collections::HashMap::new();
                    for (i, c) in code.iter().enumerate() {
                        if let Some(o) = seen.insert(*c, i) {
                            return Err(format!("occurrences {} and {} are left out by the same draw", o, i));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Which of the n occurrences of "ab" were left out?
fn occurrences(tk: &Tokenizer, way: usize, n: usize, p: f64) -> R<Vec<bool>> {
    let long = || "ab".repeat(n);
    let many = vec!["ab"; n];
    let m = tk.model();
                                    let read = |ids: &[u32]| -> R<Vec<bool>> {
        let mut out = vec![];
        let mut i = 0;
        while i < ids.len() {
            match (ids[i], ids.get(i + 1)) {
                (256, _) => out.push(false),
                (257, _) => {}
                (97, Some(98)) => {
                    out.push(true);
                    i += 1;
                }
                _ => return Err(format!("unexpected ids {:?}...", &ids[i..ids.len().min(i + 4)])),
            }
            i += 1;
        }
        Ok(out)
    };
    match way {
        0 => read(&es(tk.encode(&long(), p))?),
        1 => read(&es(tk.encode_ordinary(&long(), p))?),
        2 => read(&es(m.encode(&long(), p))?),
        3 => read(&es(tk.encode(&many.join("<s>"), p))?),
        4 => read(&es(tk.encode_batch(many.clone(), p))?.concat()),
        5 => read(&es(tk.encode_ordinary_batch(many.clone(), p))?.concat()),
        6 => {
            let mut out = vec![];
            for t in &many {
                out.extend(es(tk.encode(t, p))?);
            }
            read(&out)
        }
        _ => {
            let kept = nodes(&m, long().as_bytes(), p);
            let kept: std::collections::HashSet<usize> = kept.into_iter().filter(|x| x.1 == 256).map(|x| x.0).collect();
            Ok((0..n).map(|k| !kept.contains(&(2 * k))).collect())
        }
    }
}
