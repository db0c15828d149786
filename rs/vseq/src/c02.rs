//! C02: encode returns a best-scoring segmentation, or fails iff there is none.
use crate::util::*;

fn enc(tk: &Tokenizer, text: &str) -> std::result::Result<Vec<u32>, String> {
    es(tk.encode_ordinary(text, 0.0))
}

fn check(h: &mut H, tk: &Tokenizer, v: &[T], text: &str) -> std::result::Result<(), String> {
    h.traces += 1;
    h.trans += 1;
    oracle::check_encode(v, text.as_bytes(), &enc(tk, text))
}

pub fn run(h: &mut H) {
    // A: all vocabularies over the 14 strings of {a,b} up to length 3
    let pool: Vec<String> = strings(&["a", "b"], 1, 3);
    let texts = strings(&["a", "b"], 0, 6);
    let scores: [&dyn Fn(usize, usize, usize) -> f64; 5] = [
        &|_, l, _| -(l as f64),
        &|i, _, _| dyadic(i),
        &|_, l, _| [-4.0, -1.75, -1.25][l - 1],
        &|i, l, n| if i % 3 == 0 { -0.5 } else { -(((n - i) % 7) as f64) - 0.25 * l as f64 },
        &|i, _, _| if i % 2 == 0 { 1.5 } else { -1.25 },
    ];
    let step = h.pick(3usize, 1);
    for sub in (0..1usize << pool.len()).step_by(step) {
        h.case(
            || format!("vocabulary: subset {:#x} of {:?}, 5 score maps, all texts over {{a,b}} of at most 6 letters", sub, pool),
            |h| {
                for (k, f) in scores.iter().enumerate() {
                    let mut v: Vec<T> = pool
                        .iter()
                        .enumerate()
                        .filter(|(i, _)| sub >> i & 1 == 1)
                        .map(|(i, s)| oracle::t(s.as_bytes(), f(i, s.len(), pool.len())))
                        .collect();
                    if (sub + k) % 2 == 1 {
                        v.reverse();
                    }
                    let tk = tokenizer(&v, &[], &[]);
                    h.state(&(sub, k));
                    for t in &texts {
                        check(h, &tk, &v, t)?;
                    }
                }
                Ok(())
            },
        );
    }
    // B: few tokens, all score assignments (ties, zero and positive scores)
    let sets: &[&[&str]] = &[
        &["a", "b", "ab", "ba", "aba"],
        &["a", "aa", "aaa", "aaaa"],
        &["ab", "abc", "cd", "d", "c"],
        &["abcd", "a", "bcd", "ab", "cd"],
        &["b", "ab", "bb", "abb"],
    ];
    let svals = [-4.0, -1.0, 0.0, 1.0, -1e9, 1e6];
    for set in sets {
        let nv = if set.len() > 4 { h.pick(4, 6) } else { 6 };
        let alpha: Vec<&str> = if set.iter().any(|s| s.contains('c')) { vec!["a", "b", "c", "d"] } else { vec!["a", "b"] };
        let texts = strings(&alpha, 0, if alpha.len() == 4 { 4 } else { 7 });
        for sc in seqs(&svals[..nv], set.len(), set.len()) {
            h.case(
                || format!("tokens {:?} with scores {:?}, all texts over {:?}", set, sc, alpha),
                |h| {
                    let v: Vec<T> = set.iter().zip(&sc).map(|(s, x)| oracle::t(s.as_bytes(), *x)).collect();
                    let tk = tokenizer(&v, &[], &[]);
                    h.state(&(set, sc.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
                    for t in &texts {
                        check(h, &tk, &v, t)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // C: partial UTF-8 tokens
    let ch = ["é", "€", "a", "è", "😀"];
    let parts: Vec<Vec<u8>> = vec![
        vec![0xc3],
        vec![0xa9],
        vec![0xe2, 0x82],
        vec![0xac],
        vec![0xe2],
        vec![0x82, 0xac],
        vec![0xac, b'a'],
        vec![b'a', 0xc3],
        vec![b'a'],
        vec![0xa8, 0xe2],
        "é".as_bytes().to_vec(),
        vec![0xf0, 0x9f, 0x98],
        vec![0x80],
        vec![0x9f, 0x98, 0x80],
        vec![0xf0],
        vec![0xa8],
    ];
    let texts = strings(&ch, 0, 3);
    let step = h.pick(37usize, 3);
    for sub in (0..1usize << parts.len()).step_by(step) {
        h.case(
            || format!("byte tokens: subset {:#x} of {:02x?}, all texts of at most 3 of {:?}", sub, parts, ch),
            |h| {
                let v: Vec<T> = parts.iter().enumerate().filter(|(i, _)| sub >> i & 1 == 1).map(|(i, b)| oracle::t(b, dyadic(i + sub))).collect();
                let tk = tokenizer(&v, &[], &[]);
                h.state(&("C", sub));
                for t in &texts {
                    check(h, &tk, &v, t)?;
                }
                Ok(())
            },
        );
    }
    // D: history: tokens given at construction or later, in every division;
    // repeated encodes, of other texts in between, on the same tokenizer and its clone
    let hist = ["a", "b", "ab", "bab", "aa", "abab", "bb", "ba"];
    let texts = strings(&["a", "b"], 0, 6);
    for rot in 0..hist.len() {
        for cut in 0..=hist.len() {
            for cut2 in cut..=hist.len() {
                h.case(
                    || format!("tokens {:?} rotated by {}, {} at construction, then to {}, then the rest, encoding between", hist, rot, cut, cut2),
                    |h| {
                        let v: Vec<T> = (0..hist.len()).map(|i| oracle::t(hist[(i + rot) % hist.len()].as_bytes(), dyadic((i + rot) % hist.len() * 3))).collect();
                        let mut tk = tokenizer(&v[..cut], &[], &[]);
                        let mut old = tk.clone();
                        for t in &texts {
                            check(h, &tk, &v[..cut], t)?;
                        }
                        tk.add_base_tokens(toks(&v[cut..cut2]));
                        for t in &texts {
                            check(h, &tk, &v[..cut2], t)?;
                        }
                        let mut m = tk.model().clone();
                        m.add_tokens(toks(&v[cut2..]));
                        for t in &texts {
                            let r = es(m.encode(t, 0.0));
                            h.traces += 1;
                            oracle::check_encode(&v, t.as_bytes(), &r)?;
                        }
                        tk.add_base_tokens(toks(&v[cut2..]));
                        for t in texts.iter().rev().chain(&texts) {
                            check(h, &tk, &v, t)?;
                        }
                        for t in &texts {
                            check(h, &old, &v[..cut], t)?;
                        }
                        old.add_base_tokens(toks(&v[cut..]));
                        for t in &texts {
                            let (a, b) = (enc(&tk, t), enc(&old, t));
                            if a != b && a.is_ok() != b.is_ok() {
                                return Err(format!("{:?} encodes to {:?} and {:?} depending on how tokens were added", t, a, b));
                            }
                            check(h, &old, &v, t)?;
                        }
                        h.state(&("D", rot, cut, cut2));
                        Ok(())
                    },
                );
            }
        }
    }
    // E: ladders and sizes: token lengths around every power of two
    let lens: Vec<usize> = h.pick(
        vec![1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4096, 5000, 65535, 65536, 70000],
        (1..600).chain([1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073]).collect(),
    );
    for &l in &lens {
        for late in [false, true] {
            for alpha in ["a", "ab", "é"] {
                h.case(
                    || format!("token of {} bytes ({:?} repeated), added {}, text around it", l, alpha, if late { "later" } else { "at construction" }),
                    |h| {
                        // beyond 600 bytes a first byte that occurs nowhere else keeps the search linear
                        let long: Vec<u8> = b"Q".iter().copied().filter(|_| l > 600).chain(alpha.bytes().cycle()).take(l).collect();
                        let run = move || -> std::result::Result<u64, String> {
                            let mut v: Vec<T> = bytes_vocab();
                            if !late && l > 1 {
                                v.push(oracle::t(&long, -1.0));
                            }
                            let mut tk = tokenizer(&v, &[], &[]);
                            if late && l > 1 {
                                v.push(oracle::t(&long, -1.0));
                                tk.add_base_tokens(toks(&v[256..]));
                            }
                            let mut n = 0;
                            for (pre, post, rep) in [("", "", 1), ("x", "", 1), ("", "y", 1), ("xyz", "zz", 1), ("", "", 2), ("é", "x", 2)] {
                                let mut s = pre.as_bytes().to_vec();
                                for _ in 0..rep {
                                    s.extend(&long);
                                }
                                s.extend(post.as_bytes());
                                let Ok(s) = String::from_utf8(s) else { continue };
                                n += 1;
                                let ids = enc(&tk, &s)?;
                                // the long token must be used as often as it was put there
                                let base = pre.len() + post.len();
                                if l > 2 && !alpha.starts_with('a') || alpha == "ab" && l % 2 == 0 {
                                    let want = base + rep;
                                    let got = ids.len();
                                    if got != want && l > 1 {
                                        return Err(format!("token of {} bytes, text {} + {} x token + {}: {} ids instead of {}", l, pre, rep, post, got, want));
                                    }
                                }
                                let total: f64 = ids.iter().map(|&i| v[i as usize].s).sum();
                                let max = if l > 1 { -8.0 * base as f64 - rep as f64 } else { -8.0 * s.len() as f64 };
                                if total < max {
                                    return Err(format!("token of {} bytes: score {} but {} is possible", l, total, max));
                                }
                                let cat: Vec<u8> = ids.iter().flat_map(|&i| v[i as usize].b.clone()).collect();
                                if cat != s.as_bytes() {
                                    return Err("the tokens do not spell the text".into());
                                }
                            }
                            Ok(n)
                        };
                        // the stack of a worker thread
                        let r = std::thread::Builder::new().stack_size(2 << 20).spawn(run).unwrap().join();
                        let n = r.map_err(|_| "panicked".to_string())??;
                        h.traces += n;
                        h.trans += n;
                        h.state(&("E", l, late, alpha));
                        Ok(())
                    },
                );
            }
        }
    }
    // F: many tokens (ids beyond 16 bits), many nested prefixes of one text
    for (n, name) in [(300usize, "nested"), (1000, "nested"), (70_000, "numbered"), (140_000, "numbered")] {
        h.case(
            || format!("{} {} tokens", n, name),
            |h| {
                let mut v: Vec<T> = bytes_vocab();
                if name == "nested" {
                    for l in 2..n {
                        v.push(oracle::t(&vec![b'a'; l], -1.0 - (l % 5) as f64 / 4.0));
                    }
                    let tk = tokenizer(&v, &[], &[]);
                    for k in [1, 2, 5, n / 2, n - 1, n, n + 1, 2 * n, 3 * n + 1] {
                        let t = "a".repeat(k);
                        check(h, &tk, &v, &t)?;
                        check(h, &tk, &v, &format!("b{}c", t))?;
                    }
                } else {
                    for i in 0..n {
                        v.push(oracle::t(format!("{:05x}", i).as_bytes(), -2.0 - (i % 8) as f64 / 8.0));
                    }
                    let tk = tokenizer(&v, &[], &[]);
                    for i in (0..n).step_by(n / 400).chain([65535 - 256, 65536 - 256, 65535, 65536, n - 1]) {
                        let t = format!("{:05x}", i);
                        let ids = enc(&tk, &t)?;
                        h.traces += 1;
                        h.trans += 1;
                        if ids != [256 + i as u32] {
                            return Err(format!("{:?} -> {:?}, expected [{}]", t, ids, 256 + i));
                        }
                        let t = format!("x{}{}y", t, t);
                        let ids = enc(&tk, &t)?;
                        if ids != [b'x' as u32, 256 + i as u32, 256 + i as u32, b'y' as u32] {
                            return Err(format!("{:?} -> {:?}", t, ids));
                        }
                    }
                }
                h.state(&("F", n));
                Ok(())
            },
        );
    }
    // G: long texts, compared with the reference optimum
    let mut v = bytes_vocab();
    for (i, s) in strings(&["a", "b"], 2, 4).iter().enumerate() {
        v.push(oracle::t(s.as_bytes(), dyadic(i) - 3.0));
    }
    v.push(oracle::t("abbab".repeat(13).as_bytes(), -2.5));
    let tk = tokenizer(&v, &[], &[]);
    for n in [100usize, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 10_000] {
        for unit in ["a", "ab", "abb", "abbab", "aabab", "abbaabc", "é"] {
            h.case(
                || format!("{:?} repeated to {} bytes", unit, n),
                |h| {
                    let mut t = unit.repeat(n / unit.len());
                    while t.len() < n {
                        t.push('a');
                    }
                    h.state(&("G", n, unit));
                    check(h, &tk, &v, &t)
                },
            );
        }
    }
    // no path: every way a single byte can be missing
    for miss in 0..=255u8 {
        h.case(
            || format!("all single bytes except {:#04x}, plus a few longer tokens", miss),
            |h| {
                let mut v: Vec<T> = bytes_vocab().into_iter().filter(|t| t.b != [miss]).collect();
                for b in ["é", "ab", "bc", "€"] {
                    v.push(oracle::t(b.as_bytes(), -3.0));
                }
                let tk = tokenizer(&v, &[], &[]);
                let c = char::from_u32(miss as u32).unwrap();
                for t in ["a".to_string(), c.to_string(), format!("a{}", c), format!("{}a", c), format!("ab{}bc", c), format!("{}{}", c, c), "é€abc".into(), "".into(), format!("x{}é", c), format!("{}\u{2080}", c)] {
                    check(h, &tk, &v, &t)?;
                }
                h.state(&("N", miss));
                Ok(())
            },
        );
    }
    // H: scores of extreme magnitude: sums overflow, vanish or cancel, yet a
    // segmentation exists
    let set = ["a", "b", "ab", "ba", "aba"];
    let svals = [f64::MIN, -1e308, -f64::MIN_POSITIVE, -5e-324, -0.0, -1.0, -1e16];
    let texts = strings(&["a", "b"], 0, 6);
    for sc in seqs(&svals, set.len(), set.len()) {
        h.case(
            || format!("tokens {:?} with scores {:?}, all texts", set, sc),
            |h| {
                let v: Vec<T> = set.iter().zip(&sc).map(|(s, x)| oracle::t(s.as_bytes(), *x)).collect();
                let tk = tokenizer(&v, &[], &[]);
                h.state(&("H", sc.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
                for t in &texts {
                    h.traces += 1;
                    h.trans += 1;
                    let ids = enc(&tk, t).map_err(|e| format!("text {:?}: {}", t, e))?;
                    let cat: Vec<u8> = ids.iter().flat_map(|&i| v[i as usize].b.clone()).collect();
                    if cat != t.as_bytes() {
                        return Err(format!("text {:?}: the ids {:?} spell another text", t, ids));
                    }
                    // additions are rounded: only a gap beyond rounding counts
                    let got: f64 = ids.iter().map(|&i| v[i as usize].s).sum();
                    let best = oracle::best(&v, t.as_bytes()).unwrap();
                    if got < best && got < best - best.abs() * 1e-12 {
                        return Err(format!("text {:?}: the ids {:?} score {:e}, {:e} is possible", t, ids, got, best));
                    }
                }
                Ok(())
            },
        );
    }
    // I: very long texts against the reference optimum
    let mut v = bytes_vocab();
    for (i, s) in strings(&["a", "b"], 2, 4).iter().enumerate() {
        v.push(oracle::t(s.as_bytes(), dyadic(i) - 3.0));
    }
    let tk = tokenizer(&v, &[], &[]);
    for n in [65_535usize, 65_536, 65_537, 131_071, 131_073, 262_145, 1_000_001] {
        for unit in ["ab", "abbab", "aabéabb"] {
            h.case(
                || format!("{:?} repeated to {} bytes", unit, n),
                |h| {
                    let mut t = unit.repeat(n / unit.len());
                    while t.len() < n {
                        t.push('a');
                    }
                    h.state(&("I", n, unit));
                    let tk = &tk;
                    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || enc(tk, &t)).unwrap().join());
                    let ids = r.map_err(|_| "panicked".to_string())??;
                    h.traces += 1;
                    h.trans += 1;
                    // all scores are multiples of 1/8: sums are exact
                    let (best, cat, got) = (linear_best(&v, t.as_bytes()), ids.iter().flat_map(|&i| v[i as usize].b.clone()).collect::<Vec<u8>>(), ids.iter().map(|&i| v[i as usize].s).sum::<f64>());
                    if cat != t.as_bytes() || got != best {
                        return Err(format!("{} bytes: score {} instead of {}, spelled correctly: {}", n, got, best, cat == t.as_bytes()));
                    }
                    Ok(())
                },
            );
        }
    }
    // J: texts of equal length one after the other in the same memory, on one
    // tokenizer and on others of the same size, on this thread: nothing of an
    // earlier call may be left
    for n in [1usize, 2, 7, 16, 64, 255, 256, 257, 1000, 1024, 1025, 4096, 4097, 10_001, 65_536, 65_537, 140_001] {
        h.case(
            || format!("six texts of {} bytes one after the other in the same memory, on three tokenizers of equal size", n),
            |h| {
                let others: Vec<Vec<T>> = (0..3).map(|k| v.iter().enumerate().map(|(i, t)| T { s: if i < 256 { t.s } else { -1.0 - dyadic(i * (k + 3)) }, ..t.clone() }).collect()).collect();
                let tks: Vec<Tokenizer> = others.iter().map(|v| tokenizer(v, &[], &[])).collect();
                let mut t = String::with_capacity(n + 64);
                for way in 0..4usize {
                    // every pair (text, tokenizer) follows every other one
                    let steps: Vec<(usize, usize)> = (0..6).flat_map(|a| (0..3).map(move |b| (a, b))).collect();
                    let n_steps = steps.len();
                    // text by text, tokenizer by tokenizer; short ones: every
                    // step after every other
                    let mut walk: Vec<usize> = (0..n_steps).chain((0..n_steps).map(|i| i % 6 * 3 + i / 6)).collect();
                    if n <= h.pick(300, 5000) {
                        walk.extend((0..n_steps).flat_map(|a| (0..n_steps).flat_map(move |b| [a, b])));
                    }
                    for part in walk.chunks(n_steps) {
                        for &i in part {
                            let (k, x) = steps[i];
                            t.clear();
                            t.extend((0..n).map(|i| if (i * i + k * (i / 3) + k) % 7 < 3 + k % 3 && (i != n / 2 || k == 0) { 'a' } else { 'b' }));
                            let ids = match way {
                                0 => es(tks[x].model().encode(&t, 0.0))?,
                                1 => es(tks[x].encode(&t, 0.0))?,
                                2 => es(tks[x].encode_ordinary(&t, 0.0))?,
                                _ => es(tks[x].encode_ordinary_batch(vec![&t], 0.0))?.remove(0),
                            };
                            h.traces += 1;
                            h.trans += 1;
                            h.state(&("J", n, k, x));
                            let v = &others[x];
                            let (best, cat, got) = (linear_best(v, t.as_bytes()), ids.iter().flat_map(|&i| v[i as usize].b.clone()).collect::<Vec<u8>>(), ids.iter().map(|&i| v[i as usize].s).sum::<f64>());
                            if cat != t.as_bytes() || got != best {
                                return Err(format!("way {}, text {}, tokenizer {}: score {} instead of {}, spelled correctly: {}", way, k, x, got, best, cat == t.as_bytes()));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

/// The best total when every token has at most four bytes.
fn linear_best(v: &[T], text: &[u8]) -> f64 {
    let map: std::collections::HashMap<&[u8], f64> = v.iter().map(|t| (t.b.as_slice(), t.s)).collect();
    let mut best = vec![f64::NEG_INFINITY; text.len() + 1];
    best[0] = 0.0;
    for end in 1..=text.len() {
        for l in 1..=4.min(end) {
            if let Some(s) = map.get(&text[end - l..end]) {
                best[end] = best[end].max(best[end - l] + s);
            }
        }
    }
    best[text.len()]
}
