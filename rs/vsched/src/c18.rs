pub use crate::api::merge;
use crate::ex::*;
use crate::train::*;

pub fn check(m: &Merge, vocab: &[T], samples: &[String], out: &(Vec<ScoredToken>, Vec<Option<u32>>)) -> std::result::Result<bool, String> {
    let pos: std::collections::HashMap<&Vec<u8>, Option<u32>> = out.0.iter().map(|t| &t.value).zip(out.1.iter().copied()).collect();
    check_merged(m, vocab, samples, &out.0, &|b| pos.get(&b.to_vec()).copied().flatten())
}

/// Scores without coincidences between sums.
pub fn irregular(i: usize) -> f64 {
    -2.0 - ((i as f64 + 1.0) * 0.6180339887).fract() * 3.0 - i as f64 * 1e-3
}

pub fn vocabs() -> Vec<Vec<T>> {
    let mk = |l: &[&str], off: usize| -> Vec<T> { l.iter().enumerate().map(|(i, s)| tk(s, irregular(i + off), i % 2 == 0)).collect() };
    let mut raw = mk(&["a", "b", " "], 5);
    raw.extend([0xc3u8, 0xa9].iter().enumerate().map(|(i, b)| T { b: vec![*b], s: irregular(i + 9), keep: true }));
    vec![
        mk(&["a", "b", " ", "é"], 0),
        { let mut v = mk(&["a", "b", " ", "é", "ab"], 1); v[4].s = -2.5; v },
        { let mut v = mk(&["b", "a", "ba", " ", "aa", "é", "abb"], 2); v[4].s = -3.1; v },
        raw,
    ]
}

pub fn run_all(h: &mut H) {
    let quick = h.quick();
    let settings = |all: bool| -> Vec<Merge> {
        let mut v = vec![];
        for (allow, max_len) in [("^.*$", 24), (r"^[ab]+$", 4), (r"^ ?[a-z]+$", 3), ("^a", 24), ("^$", 24), ("^.*$", 2)] {
            for num in if all { vec![0, 1, 2, 3, 5, 40] } else { vec![1, 3, 40] } {
                for step in if all { vec![1, 2, 3, 50] } else { vec![1, 2, 50] } {
                    for scale in if all { vec![0.9, 1.0, 0.5, 1.3] } else { vec![0.9] } {
                        v.push(Merge { allow, num, step, scale, max_len });
                    }
                }
            }
        }
        v
    };
    let mut corpora: Vec<Vec<String>> = vec![vec![], strs(&["a"])];
    corpora.extend(strings(&["a", "b"], 2, h.pick(6, 8)).into_iter().map(|s| vec![s]));
    corpora.extend(strings(&["a", "é", " "], 2, h.pick(4, 5)).into_iter().map(|s| vec![s]));
    corpora.extend(seqs(&strs(&["ab", "aab", "bab a", "éa", "a"]), 2, 3));
    for (k, vocab) in vocabs().into_iter().enumerate() {
        for (j, samples) in corpora.iter().enumerate() {
            let all = !quick && samples.len() > 1 || j % 40 == 5;
            h.case(
                || format!("merging in {:?}, starting vocabulary {}, {} settings", samples, k, settings(all).len()),
                |h| {
                    for (i, m) in settings(all).iter().enumerate() {
                        let threads = [1, 2, 8][i % 3];
                        let out = once_sched(threads, 0, i % 2 == 0, || merge(m, &vocab, samples)).map_err(|e| format!("{:?}: {}", m, e))?;
                        h.traces += 1;
                        h.trans += out.0.len() as u64;
                        h.state(&(k, out.0.iter().map(|t| (t.value.clone(), t.score.to_bits())).collect::<Vec<_>>()));
                        match check(m, &vocab, samples, &out) {
                            Ok(true) => {}
                            Ok(false) => h.count("ambiguous_skipped", 1),
                            Err(e) => return Err(format!("{:?}: {}", m, e)),
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // several rounds: what a round counts is the segmentation under the
    // vocabulary of that round, tokens added in between included, also for
    // samples none of whose pairs was merged
    let words: Vec<String> = strings(&["a", "b", "c"], 3, 4);
    let extra: Vec<Vec<&str>> = vec![vec![], vec!["ab"], vec!["bc", "ca"]];
    let tail: Vec<String> = if quick { strs(&["cbc"]) } else { strings(&["a", "b", "c"], 3, 3) };
    for w in &words {
        h.case(
            || format!("merging three rounds in two copies of {:?} and three of another word of up to four letters", w),
            |h| {
                for x in &words {
                    for t in &tail {
                        let mut samples = vec![w.clone(), w.clone(), x.clone(), x.clone(), x.clone()];
                        samples.extend(std::iter::repeat(t.clone()).take(4));
                        for (k, e) in extra.iter().enumerate() {
                            let mut vocab: Vec<T> = ["a", "b", "c"].iter().enumerate().map(|(i, s)| tk(s, -4.0 - irregular(i).abs() / 16.0, true)).collect();
                            vocab.extend(e.iter().enumerate().map(|(i, s)| tk(s, -6.5 - irregular(i + 3).abs() / 8.0, false)));
                            for (scale, step) in [(0.5, 1), (0.3, 1), (0.9, 2)] {
                                let m = Merge { allow: "^.*$", num: 3 * step, step, scale, max_len: 4 };
                                let out = once_sched(1, 0, true, || merge(&m, &vocab, &samples)).map_err(|e| format!("{:?} {:?}: {}", m, samples, e))?;
                                h.traces += 1;
                                h.trans += out.0.len() as u64;
                                h.state(&("rounds", k, out.0.iter().map(|t| (t.value.clone(), t.score.to_bits())).collect::<Vec<_>>()));
                                match check(&m, &vocab, &samples, &out) {
                                    Ok(true) => {}
                                    Ok(false) => h.count("ambiguous_skipped", 1),
                                    Err(e) => return Err(format!("{:?} in {:?} with {:?}: {}", m, samples, vocab, e)),
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // numbers of samples and threads
    for n in 0..=h.pick(24, 80) {
        for threads in [1usize, 2, 3, 4, 8] {
            h.case(
                || format!("merging over {} samples on {} threads", n, threads),
                |h| {
                    let vocab = vocabs().swap_remove(1);
                    let samples: Vec<String> = (0..n).map(|i| ["ab", "b", "aba", "ba b", " ", "é"][i % 6].to_string() + &"ba".repeat(i % 3)).collect();
                    let m = Merge { allow: "^.*$", num: 6, step: 2, scale: 0.9, max_len: 8 };
                    let mut c = cfg(threads, 1, if quick { 20 } else { 200 });
                    c.costed_steals = true;
                    run(h, &c, || merge(&m, &vocab, &samples), |h, o| {
                        if !check(&m, &vocab, &samples, &o)? {
                            h.count("ambiguous_skipped", 1);
                        }
                        Ok(())
                    })
                },
            );
        }
    }
    crate::big::merge(h);
    crate::big::merge_wide(h);
}
