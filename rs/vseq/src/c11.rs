//! C11: the lattice: best path, n best paths, marginals, reuse.
use crate::util::*;
use std::collections::HashSet;

type R = std::result::Result<(), String>;

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

/// The path a list of nodes stands for: ids and total score, sentence markers aside.
fn path(v: &[T], text: &[u8], nodes: &[Node]) -> std::result::Result<(Vec<u32>, f64), String> {
    let mut ids = vec![];
    let mut pos = 0;
    let mut s = 0.0;
    for n in nodes {
        if n.token_len == 0 {
            continue;
        }
        let t = v.get(n.token_id as usize).ok_or_else(|| format!("node with token id {}", n.token_id))?;
        if n.pos != pos || n.token_len != t.b.len() || !text[pos..].starts_with(&t.b) {
            return Err(format!("node at {} (token {}, length {}) does not continue a path at {}", n.pos, n.token_id, n.token_len, pos));
        }
        if n.score != t.s {
            return Err(format!("node of token {} has score {} instead of {}", n.token_id, n.score, t.s));
        }
        pos += n.token_len;
        s += n.score;
        ids.push(n.token_id);
    }
    if pos != text.len() {
        return Err(format!("the path ends at {} of {}", pos, text.len()));
    }
    Ok((ids, s))
}

/// What the answers must be, by listing all segmentations.
struct Want {
    scores: Vec<f64>, // descending
    count: Vec<f64>,  // expected number of occurrences of each token
    z: f64,
}

fn brute(v: &[T], text: &[u8]) -> Want {
    let segs = oracle::segmentations(v, text);
    let mut sc: Vec<f64> = segs.iter().map(|p| p.iter().map(|&i| v[i as usize].s).sum()).collect();
    let m = sc.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let w: Vec<f64> = sc.iter().map(|s| (s - m).exp()).collect();
    let tot: f64 = w.iter().sum();
    let mut count = vec![0.0; v.len()];
    for (p, w) in segs.iter().zip(&w) {
        for &i in p {
            count[i as usize] += w / tot;
        }
    }
    sc.sort_by(|a, b| b.partial_cmp(a).unwrap());
    Want { scores: sc, count, z: m + tot.ln() }
}

/// Scaled forward-backward over positions and k-best lists over prefixes, for longer texts.
fn dp(v: &[T], text: &[u8], k: usize) -> Want {
    let n = text.len();
    let lse = |x: &[f64]| {
        let m = x.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        if m == f64::NEG_INFINITY {
            m
        } else {
            m + x.iter().map(|a| (a - m).exp()).sum::<f64>().ln()
        }
    };
    let edges: Vec<Vec<(usize, usize)>> = (0..n).map(|i| v.iter().enumerate().filter(|(_, t)| !t.b.is_empty() && text[i..].starts_with(&t.b)).map(|(id, t)| (id, i + t.b.len())).collect()).collect();
    let mut right = vec![0.0; n + 1];
    for i in (0..n).rev() {
        let x: Vec<f64> = edges[i].iter().map(|&(id, e)| v[id].s + right[e]).collect();
        right[i] = lse(&x);
    }
    let mut inc: Vec<Vec<f64>> = vec![vec![]; n + 1];
    let mut left = vec![0.0; n + 1];
    let mut best: Vec<Vec<f64>> = vec![vec![]; n + 1];
    best[0] = vec![0.0];
    let mut count = vec![0.0; v.len()];
    for i in 0..n {
        if i > 0 {
            left[i] = lse(&inc[i]);
            best[i].sort_by(|a, b| b.partial_cmp(a).unwrap());
            best[i].truncate(k);
        }
        for &(id, e) in &edges[i] {
            inc[e].push(left[i] + v[id].s);
            count[id] += (left[i] + v[id].s + right[e] - right[0]).exp();
            let add: Vec<f64> = best[i].iter().map(|s| s + v[id].s).collect();
            best[e].extend(add);
        }
    }
    let mut scores = std::mem::take(&mut best[n]);
    scores.sort_by(|a, b| b.partial_cmp(a).unwrap());
    scores.truncate(k);
    Want { scores, count, z: right[0] }
}

fn best_path(h: &mut H, l: &mut Lattice, v: &[T], text: &[u8], w: &Want) -> R {
    h.traces += 1;
    let p = l.viterbi();
    let (ids, s) = path(v, text, &p)?;
    if !close(s, w.scores[0]) {
        return Err(format!("best path {:?} scores {} instead of {}", ids, s, w.scores[0]));
    }
    Ok(())
}

fn nbest(h: &mut H, l: &mut Lattice, v: &[T], text: &[u8], w: &Want, n: usize) -> R {
    h.traces += 1;
    let ps = l.nbest(n);
    let want = n.min(w.scores.len());
    if ps.len() != want {
        return Err(format!("asked for the {} best, got {} instead of {}", n, ps.len(), want));
    }
    let mut seen = HashSet::new();
    for (k, p) in ps.iter().enumerate() {
        let (ids, s) = path(v, text, p).map_err(|e| format!("path {} of the {} best: {}", k, n, e))?;
        if !seen.insert(ids.clone()) {
            return Err(format!("{:?} is twice among the {} best", ids, n));
        }
        // the k-th of a descending list of true path scores must be the k-th best score
        if !close(s, w.scores[k]) {
            return Err(format!("number {} of the {} best is {:?} with score {}, expected score {}", k, n, ids, s, w.scores[k]));
        }
    }
    Ok(())
}

fn marginal(h: &mut H, l: &Lattice, v: &[T], w: &Want, start: f64) -> R {
    h.traces += 1;
    let mut e: Vec<f64> = (0..v.len()).map(|i| start * (i as f64 + 1.0)).collect();
    let z = l.populate_marginal(&mut e);
    if !close(z, w.z) {
        return Err(format!("log weight {} instead of {}", z, w.z));
    }
    for i in 0..v.len() {
        let got = e[i] - start * (i as f64 + 1.0);
        if (got - w.count[i]).abs() > 1e-8 * (1.0 + w.count[i]) {
            return Err(format!("expected count of {} ({}) is {} instead of {}", i, hex(&v[i].b), got, w.count[i]));
        }
    }
    Ok(())
}

/// Everything on one sentence, in one of six orders.
fn all(h: &mut H, l: &mut Lattice, v: &[T], text: &[u8], w: &Want, ns: &[usize], order: usize) -> R {
    let go = |h: &mut H, l: &mut Lattice| -> R {
        for step in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order % 6] {
            match step {
                0 => best_path(h, l, v, text, w)?,
                1 => {
                    for &n in ns {
                        nbest(h, l, v, text, w, n)?;
                    }
                }
                _ => marginal(h, l, v, w, [0.0, 1.0, 0.25][order % 3])?,
            }
        }
        Ok(())
    };
    go(h, l).map_err(|e| format!("sentence {}: {}", hex(text), e))
}

fn score(fam: usize, i: usize, len: usize) -> f64 {
    match fam {
        0 => dyadic(i),
        1 => -1.0,
        2 => -1.5 * len as f64,
        3 => -(((i * 7919) % 641) as f64) * 1.1 - 1.0,
        4 => [0.0, -0.5, 1.0, -2.0, 0.25][i % 5],
        _ => -((i + 1) as f64).ln() - 1e-3 * i as f64,
    }
}

pub fn run(h: &mut H) {
    let ab: [u8; 2] = [b'a', b'b'];
    let pool: Vec<Vec<u8>> = seqs(&ab, 2, 3);
    let texts = seqs(&ab, 0, h.pick(6, 8));
    let ns = [0usize, 1, 2, 3, 4, 7, 16, 1000];
    // A: all subsets of the strings of length 2 and 3
    for sub in 0..1usize << pool.len() {
        for fam in 0..6 {
            h.case(
                || format!("bytes a, b and subset {:#x} of {:?}, scores {}, all sentences over a, b, one lattice", sub, pool.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>(), fam),
                |h| {
                    let mut v: Vec<T> = ab.iter().enumerate().map(|(i, b)| oracle::t(&[*b], score(fam, i, 1))).collect();
                    v.extend(pool.iter().enumerate().filter(|(i, _)| sub >> i & 1 == 1).map(|(i, b)| oracle::t(b, score(fam, i + 2, b.len()))));
                    if sub % 2 == 1 {
                        v.reverse();
                    }
                    if sub % 16 == 5 {
                        v.push(oracle::t(b"abab", score(fam, 20, 4)));
                    }
                    let m = model(&v);
                    let mut l = Lattice::default();
                    let mut p = VecPool::with_capacity(sub % 5, sub % 3);
                    for (ti, text) in texts.iter().enumerate() {
                        let w = brute(&v, text);
                        h.state(&(sub, fam, ti));
                        h.trans += w.scores.len() as u64;
                        l.from(text, &mut p);
                        m.populate_nodes(&mut l, 0.0);
                        all(h, &mut l, &v, text, &w, &ns, sub + ti)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // B: a larger alphabet: bytes 0x00, 0xff, 'a'; small sets of longer tokens
    let by: [u8; 3] = [0, 0xff, b'a'];
    let pool3: Vec<Vec<u8>> = seqs(&by, 2, 3);
    let texts3 = seqs(&by, 0, h.pick(4, 5));
    let mut sets: Vec<Vec<usize>> = vec![];
    for a in 0..pool3.len() {
        for b in a + 1..pool3.len() {
            sets.push(vec![a, b]);
            for c in b + 1..pool3.len() {
                if !h.quick() || (a + b + c) % 3 == 0 {
                    sets.push(vec![a, b, c]);
                }
            }
        }
    }
    for set in &sets {
        h.case(
            || format!("three byte values and the tokens {:02x?}", set.iter().map(|&i| &pool3[i]).collect::<Vec<_>>()),
            |h| {
                for fam in [0, 5] {
                    let mut v: Vec<T> = set.iter().map(|&i| oracle::t(&pool3[i], score(fam, i, pool3[i].len()))).collect();
                    v.extend(by.iter().enumerate().map(|(i, b)| oracle::t(&[*b], score(fam, 40 + i, 1))));
                    let m = model(&v);
                    let mut l = Lattice::default();
                    let mut p = VecPool::default();
                    for (ti, text) in texts3.iter().enumerate() {
                        let w = brute(&v, text);
                        h.state(&("B", set, fam, ti));
                        h.trans += w.scores.len() as u64;
                        l.from(text, &mut p);
                        m.populate_nodes(&mut l, 0.0);
                        all(h, &mut l, &v, text, &w, &ns, ti)?;
                    }
                }
                Ok(())
            },
        );
    }
    // C: reuse: every ordered pair (triple) of sentences against a fresh lattice,
    // with every choice of what was asked of the first one
    let short = seqs(&ab, 0, h.pick(4, 5));
    for (vi, names) in [vec!["a", "b", "ab", "ba", "aab"], vec!["bb", "b", "a", "abab", "aa", "aaa"], vec!["a", "b"]].iter().enumerate() {
        let v: Vec<T> = names.iter().enumerate().map(|(i, s)| oracle::t(s.as_bytes(), dyadic(i + 3 * vi))).collect();
        let m = model(&v);
        for s1 in &short {
            h.case(
                || format!("tokens {:?}: lattice used for {:?}, then for every sentence", names, String::from_utf8_lossy(s1)),
                |h| {
                    for s2 in &short {
                        let w = brute(&v, s2);
                        for before in 0..5 {
                            h.state(&("C", vi, s1, s2, before));
                            h.trans += 1;
                            let mut l = Lattice::default();
                            let mut p = VecPool::with_capacity(before, 2);
                            l.from(s1, &mut p);
                            if before > 0 {
                                m.populate_nodes(&mut l, 0.0);
                            }
                            match before {
                                2 => drop(l.viterbi()),
                                3 => drop(l.nbest(3)),
                                4 => {
                                    l.populate_marginal(&mut vec![0.0; v.len()]);
                                }
                                _ => {}
                            }
                            l.from(s2, &mut p);
                            m.populate_nodes(&mut l, 0.0);
                            all(h, &mut l, &v, s2, &w, &[1, 2, 3, 100], before)?;
                            // and again for a third
                            l.from(s1, &mut p);
                            m.populate_nodes(&mut l, 0.0);
                            all(h, &mut l, &v, s1, &brute(&v, s1), &[2], before + 1)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // E: vocabularies that lack some or all single bytes: dead ends must count for nothing
    let poole: Vec<Vec<u8>> = seqs(&ab, 1, 3);
    for sub in 1..1usize << poole.len() {
        if sub & 3 == 3 {
            continue; // both bytes: section A
        }
        h.case(
            || format!("only {:?}: every sentence over a, b that has a segmentation", poole.iter().enumerate().filter(|(i, _)| sub >> i & 1 == 1).map(|(_, b)| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>()),
            |h| {
                for fam in [0, 4, 5] {
                    let v: Vec<T> = poole.iter().enumerate().filter(|(i, _)| sub >> i & 1 == 1).map(|(i, b)| oracle::t(b, score(fam, i, b.len()))).collect();
                    let m = model(&v);
                    let mut l = Lattice::default();
                    let mut p = VecPool::default();
                    for (ti, text) in texts.iter().enumerate() {
                        l.from(text, &mut p);
                        m.populate_nodes(&mut l, 0.0);
                        if oracle::segmentations(&v, text).is_empty() {
                            continue;
                        }
                        let w = brute(&v, text);
                        h.state(&("E", sub, fam, ti));
                        h.trans += w.scores.len() as u64;
                        all(h, &mut l, &v, text, &w, &ns, sub + ti)?;
                    }
                }
                Ok(())
            },
        );
    }
    // D: longer sentences against dynamic programming
    let lens: Vec<usize> = h.pick(vec![9, 16, 31, 64, 100, 200, 400], (7..130).chain([199, 255, 256, 257, 400, 511, 512, 513, 1000]).collect());
    for &len in &lens {
        for fam in [0, 1, 2, 3, 5] {
            for pat in ["a", "ab", "aab", "abbab", "abaabbb"] {
                h.case(
                    || format!("sentence of {} bytes ({:?} repeated), scores {}, n best up to 1500", len, pat, fam),
                    |h| {
                        let text: Vec<u8> = pat.bytes().cycle().take(len).collect();
                        let names = ["a", "b", "ab", "ba", "aa", "aab", "bab", "abab", "aaaa", "aabaab"];
                        let v: Vec<T> = names.iter().enumerate().map(|(i, s)| oracle::t(s.as_bytes(), score(fam, i, s.len()))).collect();
                        let m = model(&v);
                        let w = dp(&v, &text, 1500);
                        h.state(&("D", len, fam, pat));
                        h.trans += len as u64;
                        let mut l = Lattice::default();
                        let mut p = VecPool::default();
                        l.from(&text, &mut p);
                        m.populate_nodes(&mut l, 0.0);
                        best_path(h, &mut l, &v, &text, &w)?;
                        marginal(h, &l, &v, &w, 0.5)?;
                        for n in [1, 2, 3, 10, 51, 52, 100, 511, 512, 513, 600, 1500] {
                            nbest(h, &mut l, &v, &text, &w, n)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // F: very long sentences, on the stack of a worker thread
    for len in [2_000usize, 20_000, 65_536, 131_073, 400_000, 1_000_000] {
        for names in [vec!["a"], vec!["a", "aa"], vec!["a", "aaa", "aaaaaaaa"]] {
            h.case(
                || format!("sentence of {} bytes, tokens {:?}", len, names),
                |h| {
                    let kinds = names.len();
                    let names = names.clone();
                    let run = move || -> std::result::Result<(), String> {
                        let v: Vec<T> = names.iter().map(|s| oracle::t(s.as_bytes(), -1.0 - (s.len() - 1) as f64 / 4.0)).collect();
                        let m = model(&v);
                        let text = vec![b'a'; len];
                        let mut l = Lattice::default();
                        let mut p = VecPool::default();
                        l.from(&text, &mut p);
                        m.populate_nodes(&mut l, 0.0);
                        // the best total of every prefix (dyadic scores: exact)
                        let mut best = vec![f64::NEG_INFINITY; len + 1];
                        best[0] = 0.0;
                        for i in 1..=len {
                            best[i] = v.iter().filter(|t| t.b.len() <= i).map(|t| best[i - t.b.len()] + t.s).fold(f64::NEG_INFINITY, f64::max);
                        }
                        let sum = |path: &[Node]| -> std::result::Result<f64, String> {
                            let mut pos = 0;
                            let mut s = 0.0;
                            // the best path ends with the node that marks the end
                            for n in path.iter().filter(|n| n.token_len > 0) {
                                if n.pos != pos || n.token_len != v[n.token_id as usize].b.len() {
                                    return Err(format!("a path has a gap at {}", pos));
                                }
                                pos += n.token_len;
                                s += v[n.token_id as usize].s;
                            }
                            if pos != len {
                                return Err(format!("a path ends at {}", pos));
                            }
                            Ok(s)
                        };
                        let got = sum(&l.viterbi())?;
                        if got != best[len] {
                            return Err(format!("best path scores {}, {} is possible", got, best[len]));
                        }
                        for n in [2, 3] {
                            let r = l.nbest(n);
                            if r.len() != if v.len() == 1 { 1 } else { n } {
                                return Err(format!("{} paths instead of {}", r.len(), n));
                            }
                            let mut last = f64::INFINITY;
                            for (i, path) in r.iter().enumerate() {
                                let s = sum(path)?;
                                if i == 0 && s != best[len] || s > last {
                                    return Err(format!("path {} of {} scores {}", i, n, s));
                                }
                                last = s;
                            }
                        }
                        let mut e = vec![0.0; v.len()];
                        let z = l.populate_marginal(&mut e);
                        // rounding: a million additions to numbers near half a million
                        let covered: f64 = e.iter().zip(&v).map(|(x, t)| x * t.b.len() as f64).sum();
                        if !z.is_finite() || z < best[len] - 1e-6 || (covered - len as f64).abs() > 1e-4 * len as f64 {
                            return Err(format!("normalisation {} (best path {}), expected counts {:?} cover {} bytes", z, best[len], e, covered));
                        }
                        Ok(())
                    };
                    std::thread::Builder::new().stack_size(2 << 20).spawn(run).unwrap().join().map_err(|_| "panicked".to_string())??;
                    h.traces += 1;
                    h.trans += len as u64;
                    h.state(&("F", len, kinds));
                    Ok(())
                },
            );
        }
    }
}
