use crate::c13::{gen, produce, HUGE};
use crate::c16::{prune, vocab_of};
use crate::c18::{self, merge};
use crate::c19::{mine, occurrences, patterns};
use crate::ex::*;
use crate::train::*;

/// Threads, preemptions, cap.
fn depths(h: &H) -> Vec<(usize, u32, u64)> {
    h.pick(vec![(2, 2, 4000), (3, 1, 4000)], vec![(2, 3, 100_000), (3, 2, 100_000), (4, 1, 50_000), (8, 1, 20_000)])
}

pub fn run_all(h: &mut H) {
    let quick = h.quick();
    let corpora = vec![strs(&["ab", "ab"]), strs(&["ab", "ba", "aab"]), strs(&["aba", "ab", "bab", "b"]), strs(&["a", "b"]), strs(&["ab b", "ab", "ab", "aé", "b"])];
    for samples in &corpora {
        for (threads, bound, cap) in depths(h) {
            for g in [gen(3, None, None, &[], &[]), gen(2, Some("[abé]+"), None, &["ab"], &["b b"])] {
                h.case(
                    || format!("all schedules of generating from {:?} with {:?} on {} threads", samples, g, threads),
                    |h| {
                        let c = counts(&g, samples);
                        run(h, &cfg(threads, bound, cap), || produce(&g, 1.0, &[samples], HUGE), |_, v| check_generated(&g, &c, HUGE, &v))
                    },
                );
            }
            for (p, f) in [(patterns()[0]), (patterns()[6]), (patterns()[9])] {
                h.case(
                    || format!("all schedules of mining {:?} in {:?} on {} threads", p, samples, threads),
                    |h| {
                        let want = occurrences(f, samples);
                        run(h, &cfg(threads, bound, cap), || mine(3, p, samples), |_, g| check_mined(&want, 3, &g))
                    },
                );
            }
            for (k, vocab) in c18::vocabs().into_iter().enumerate().take(3) {
                h.case(
                    || format!("all schedules of merging over {:?} starting from vocabulary {} on {} threads", samples, k, threads),
                    |h| {
                        let m = Merge { allow: "^.*$", num: 2, step: 2, scale: 0.9, max_len: 5 };
                        run(h, &cfg(threads, bound, cap), || merge(&m, &vocab, samples), |h, o| {
                            if !c18::check(&m, &vocab, samples, &o)? {
                                h.count("ambiguous_skipped", 1);
                            }
                            Ok(())
                        })
                    },
                );
            }
            for (size, em) in [(4usize, 1usize), (7, 0)] {
                h.case(
                    || format!("all schedules of pruning on {:?} to {} with {} iterations on {} threads", samples, size, em, threads),
                    |h| {
                        let mut vocab = vocab_of(&["a", "b", " "], &["ab", "ba", "aab", "bb", "é"], |_, s| s.len() == 1, 1);
                        for b in [0xc3u8, 0xa9] {
                            vocab.push(T { b: vec![b], s: -7.3 - b as f64 * 0.003, keep: true });
                        }
                        let p = Prune { size, shrink: 0.1, em };
                        let Some(want) = pruned(&vocab, samples, &p) else {
                            h.count("too_close_to_call", 1);
                            return Ok(());
                        };
                        run(h, &cfg(threads, bound, cap), || prune(&p, 0.0, &vocab, samples), |_, r| same_vocab(&want, &r?))
                    },
                );
            }
        }
    }
    // every number of samples and threads, hence every division into chunks
    for n in (0..=h.pick(26, 90)).chain([97, 128, 200, 333]) {
        for threads in [1usize, 2, 3, 4, 5, 8, 16] {
            if quick && n > 20 && threads % 3 != 2 {
                continue;
            }
            let samples: Vec<String> = (0..n).map(|i| ["ab", "ba b", "aab", "b", "abab", "b a"][i % 6].to_string() + &"ab".repeat(i * i % 4)).collect();
            h.case(
                || format!("{} samples on {} threads: generate, mine, merge, prune", n, threads),
                |h| {
                    let mut c = cfg(threads, 1, if quick { 6 } else { 60 });
                    c.costed_steals = true;
                    for c in [c.clone(), Config { costed_steals: false, bound: 0, max_execs: 2, ..c }] {
                        let g = gen(4, None, None, &["ab"], &["b b"]);
                        let cn = counts(&g, &samples);
                        run(h, &c, || produce(&g, 1.0, &[&samples], 266), |_, v| check_generated(&g, &cn, 266, &v)).map_err(|e| format!("generate: {}", e))?;
                        let want = occurrences(patterns()[6].1, &samples);
                        run(h, &c, || mine(4, "[ab]+", &samples), |_, g| check_mined(&want, 4, &g)).map_err(|e| format!("mine: {}", e))?;
                        let vocab = c18::vocabs().swap_remove(0);
                        let m = Merge { allow: "^[ab]+$", num: 3, step: 2, scale: 0.9, max_len: 5 };
                        run(h, &c, || merge(&m, &vocab, &samples), |h, o| {
                            if !c18::check(&m, &vocab, &samples, &o)? {
                                h.count("ambiguous_skipped", 1);
                            }
                            Ok(())
                        })
                        .map_err(|e| format!("merge: {}", e))?;
                        let vocab = vocab_of(&["a", "b", " "], &["ab", "ba", "aab", "abab", " b"], |_, s| s.len() == 1, 1);
                        let p = Prune { size: 5, shrink: 0.1, em: 1 };
                        match pruned(&vocab, &samples, &p) {
                            None => h.count("too_close_to_call", 1),
                            Some(want) => run(h, &c, || prune(&p, 0.0, &vocab, &samples), |_, r| same_vocab(&want, &r?)).map_err(|e| format!("prune: {}", e))?,
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}
