use crate::c16::*;
use crate::ex::*;
use crate::train::*;

pub use crate::train::check_pruned as check;

pub fn run_all(h: &mut H) {
    let quick = h.quick();
    let keeps: [(&str, fn(usize, &str) -> bool); 4] = [
        ("bytes", |_, s| s.len() == 1),
        ("bytes and every other token", |i, s| s.len() == 1 || i % 2 == 0),
        ("everything", |_, _| true),
        ("nothing", |_, _| false),
    ];
    // 1. every setting, no dropout, draws on either side with full dropout
    for multi in choices(h.pick(3, 4)) {
        for family in 0..5 {
            for (kn, keep) in keeps {
                let vocab = vocab_of(&["a", "b"], &multi, keep, family);
                let safe = vocab[0].keep && vocab[1].keep;
                h.case(
                    || format!("pruning a, b and {:?} (scores {}, kept: {}) to every size", multi, family, kn),
                    |h| {
                        let n = vocab.len();
                        for samples in corpora().into_iter().take(if quick { 3 } else { 6 }).chain([vec![]]) {
                            for size in (0..=n + 1).step_by(if quick { 2 } else { 1 }).chain([n - 1]) {
                                for (k, (em, shrink, drop, draw)) in [(1, 0.8, 0.0, 0u64), (0, 0.5, 0.0, 0), (2, 0.0, 1.0, 0), (1, 1.0, 0.01, u64::MAX), (2, 1.5, 0.5, 0)].into_iter().enumerate() {
                                    let p = Prune { size, shrink, em };
                                    let r = once_sched([1, 2, 3][k % 3], draw, k % 2 == 0, || prune(&p, drop, &vocab, &samples));
                                    h.traces += 1;
                                    h.trans += n as u64;
                                    match r {
                                        Ok(Ok(v)) => {
                                            h.state(&v.iter().map(|t| (t.value.clone(), t.score.to_bits())).collect::<Vec<_>>());
                                            check(&vocab, &p, &v)
                                        }
                                        // without kept bytes a text may become impossible to encode
                                        Ok(Err(_)) | Err(_) if !safe && !matches!(&r, Err(e) if e.contains("no end") || e.contains("deadlock")) => {
                                            h.count("failed_without_kept_bytes", 1);
                                            Ok(())
                                        }
                                        Ok(Err(e)) => Err(format!("failed: {}", e)),
                                        Err(e) => Err(e),
                                    }
                                    .map_err(|e| format!("{:?}, dropout {}, draws {:#x}, samples {:?}: {}", p, drop, draw, samples, e))?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // 2. every outcome of the draws
    let tiny: Vec<Vec<String>> = vec![strs(&["ab"]), strs(&["abab"]), strs(&["aab", "ab"]), strs(&["babb"]), strs(&["aabab"])];
    for multi in choices(h.pick(2, 3)).into_iter().filter(|m| !m.is_empty()) {
        for family in [0usize, 2, 3] {
            for samples in &tiny {
                let vocab = vocab_of(&["a", "b"], &multi, |_, s| s.len() == 1, family);
                h.case(
                    || format!("pruning a, b and {:?} (scores {}) on {:?} with dropout 0.5, every outcome of the draws", multi, family, samples),
                    |h| {
                        for (size, em) in [(2usize, 1usize), (3, 1), (2, 2)] {
                            let p = Prune { size, shrink: 0.8, em };
                            let mut c = cfg(1, 0, if quick { 300 } else { 20_000 });
                            c.rng = Rng::Choices(vec![0, u64::MAX]);
                            run(h, &c, || prune(&p, 0.5, &vocab, samples), |_, r| {
                                let v = r.map_err(|e| format!("failed: {}", e))?;
                                check(&vocab, &p, &v)
                            })
                            .map_err(|e| format!("{:?}: {}", p, e))?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // 3. realistic size: all bytes, words of a text
    let text = "the cat sat on the mat and the other cat sat on that mat";
    for n in [257usize, 300, 400] {
        for (shrink, em, drop) in [(0.8, 1, 0.01), (0.9, 2, 0.0), (0.5, 1, 0.1), (0.99, 1, 0.0)] {
            h.case(
                || format!("pruning 256 bytes and every substring of a text to {} with shrink factor {}, {} iterations, dropout {}", n, shrink, em, drop),
                |h| {
                    let mut vocab: Vec<T> = (0..=255u8).map(|b| T { b: vec![b], s: -6.0, keep: true }).collect();
                    let mut seen = std::collections::BTreeSet::new();
                    for i in 0..text.len() {
                        for l in 2..=8 {
                            if i + l <= text.len() && seen.insert(&text[i..i + l]) {
                                vocab.push(tk(&text[i..i + l], -7.0 - (i as f64) * 0.01 - l as f64 * 0.1, (i + l) % 31 == 0));
                            }
                        }
                    }
                    let samples: Vec<String> = (0..40).map(|i| text[i % 17..text.len() - i % 13].to_string()).collect();
                    let p = Prune { size: n, shrink, em };
                    for draw in [0u64, 1 << 63, u64::MAX] {
                        for threads in [1usize, 8] {
                            let v = once_sched(threads, draw, true, || prune(&p, drop, &vocab, &samples)).and_then(|r| r)?;
                            h.traces += 1;
                            h.trans += vocab.len() as u64;
                            check(&vocab, &p, &v)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    crate::big::prune_wide(h);
}
