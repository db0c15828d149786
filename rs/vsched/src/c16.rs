pub use crate::api::prune;
use crate::c18::irregular;
use crate::ex::*;
use crate::train::*;

/// Base bytes plus the chosen multi-byte tokens, with scores from a family.
pub fn vocab_of(bytes: &[&str], multi: &[&str], keep: impl Fn(usize, &str) -> bool, family: usize) -> Vec<T> {
    bytes
        .iter()
        .chain(multi)
        .enumerate()
        .map(|(i, s)| {
            let sc = match family {
                0 => irregular(i),
                1 => -1.0 - i as f64 * 0.517 - s.len() as f64 * 0.11,
                // multi-byte tokens worse than their bytes
                2 => if s.len() == 1 { -1.0 - i as f64 * 0.13 } else { -9.0 - i as f64 * 0.31 },
                // exact ties
                3 => -(s.len() as f64),
                _ => -2.0,
            };
            tk(s, sc, keep(i, s))
        })
        .collect()
}

pub const POOL: [&str; 8] = ["ab", "ba", "aa", "bb", "aab", "bab", "abb", "abab"];

/// All choices of at most `k` tokens of the pool, in pool order.
pub fn choices(k: u32) -> Vec<Vec<&'static str>> {
    (0..1u32 << POOL.len()).filter(|m| m.count_ones() <= k).map(|m| (0..POOL.len()).filter(|i| m >> i & 1 == 1).map(|i| POOL[i]).collect()).collect()
}

pub fn corpora() -> Vec<Vec<String>> {
    vec![
        strs(&["ab"]),
        strs(&["aabab", "ab"]),
        strs(&["ababab", "bab", "aab"]),
        strs(&["abba", "abba", "bb", "a"]),
        strs(&["aaaa", "bbbb", "abababab"]),
        strs(&["abbabaab", "aabbab", "b", "ba", "abab", "bab"]),
    ]
}

/// The implementation against the reference; tells whether it was decidable.
pub fn compare(h: &mut H, vocab: &[T], samples: &[String], p: &Prune, threads: usize, helpers: bool) -> Res {
    let Some(want) = pruned(vocab, samples, p) else {
        h.count("too_close_to_call", 1);
        return Ok(());
    };
    let got = once_sched(threads, 0, helpers, || prune(p, 0.0, vocab, samples)).and_then(|r| r).map_err(|e| format!("{:?}: {}", p, e))?;
    h.traces += 1;
    h.trans += (vocab.len() + got.len()) as u64;
    h.state(&got.iter().map(|t| (t.value.clone(), t.score.to_bits(), t.keep)).collect::<Vec<_>>());
    same_vocab(&want, &got).map_err(|e| format!("{:?}: {}", p, e))
}

pub fn run_all(h: &mut H) {
    let quick = h.quick();
    let settings = |n: usize| -> Vec<Prune> {
        let mut v = vec![];
        let sizes: Vec<usize> = if quick { vec![n.saturating_sub(1), n / 2 + 1, 2] } else { (0..=n).collect() };
        for size in sizes {
            for (em, shrinks) in [(0, vec![0.01, 0.8]), (1, vec![0.01, 0.75]), (2, vec![0.01, 0.9]), (5, vec![0.5])] {
                for shrink in shrinks {
                    v.push(Prune { size, shrink, em });
                }
            }
        }
        v
    };
    let keeps: [(&str, fn(usize, &str) -> bool); 3] = [("bytes", |_, s| s.len() == 1), ("bytes and every third token", |i, s| s.len() == 1 || i % 3 == 0), ("nothing", |_, _| false)];
    for multi in choices(h.pick(3, 5)) {
        for family in 0..h.pick(2, 3) {
            for (kn, keep) in keeps {
                let vocab = vocab_of(&["a", "b"], &multi, keep, family);
                h.case(
                    || format!("pruning a, b and {:?} (scores {}, kept: {}) on 6 corpora, {} settings", multi, family, kn, settings(vocab.len()).len()),
                    |h| {
                        for (j, samples) in corpora().iter().enumerate() {
                            for (i, p) in settings(vocab.len()).iter().enumerate() {
                                compare(h, &vocab, samples, p, [1, 2, 3, 8][(i + j) % 4], i % 2 == 0).map_err(|e| format!("corpus {:?}: {}", samples, e))?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // larger alphabets, multi-byte characters, many samples
    let words = ["the", "th", "he", "at", "ca", "cat", "sat", "mat", " t", "the ", "é", "aé", " the"];
    let bytes = ["t", "h", "e", "a", "c", "s", "m", " "];
    for n in [1usize, 3, 8, 17, 40, 100] {
        for k in 0..words.len() {
            for family in 0..3 {
                h.case(
                    || format!("pruning a vocabulary without {:?} over {} sentences (scores {})", words[k], n, family),
                    |h| {
                        let multi: Vec<&str> = words.iter().enumerate().filter(|(i, _)| *i != k).map(|x| *x.1).collect();
                        let mut vocab = vocab_of(&bytes, &multi, |i, s| s.len() == 1 || i % 7 == 0, family);
                        for b in [0xc3u8, 0xa9] {
                            vocab.push(T { b: vec![b], s: -7.3 - b as f64 * 0.003, keep: true });
                        }
                        let samples: Vec<String> = (0..n).map(|i| ["the cat sat", "the mat at the", "aé é", "cat", "hat the cat", "t"][i % 6].to_string() + ["", " the", " sat"][i % 3]).collect();
                        for size in [0, 12, 14, 16, 18] {
                            for (em, shrink) in [(0, 0.1), (1, 0.1), (1, 0.8), (2, 0.8), (3, 0.95)] {
                                compare(h, &vocab, &samples, &Prune { size, shrink, em }, [1, 2, 4, 8][n % 4], em % 2 == 0)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    crate::big::prune(h);
}
