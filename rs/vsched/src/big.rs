//! Magnitudes: counts, lengths and numbers of items around every power of two
//! and beyond the constants of the program.
use crate::ex::*;
use crate::train::*;
use crate::{c13, c15, c16, c18, c19};

pub fn sizes(h: &H, top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for k in 6..18u32 {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for d in [100, 1000, 5000, 10_000, 20_000, 50_000, 81_920, 100_000] {
        v.extend([d, d + 1]);
        if !h.quick() {
            v.extend([d - 1, d * 3 / 2, d * 2, d * 2 + 1]);
        }
    }
    v.sort();
    v.dedup();
    v.retain(|x| *x <= top);
    v
}

fn did(h: &mut H, key: &impl std::hash::Hash, n: usize) {
    h.traces += 1;
    h.trans += n as u64;
    h.state(key);
}

pub fn generate(h: &mut H) {
    let top = h.pick(70_000, 200_000);
    for n in sizes(h, top) {
        for threads in [1usize, 3] {
            h.case(
                || format!("generate from {} samples \"ab\" and {} samples \"cd\" on {} threads", n, n - 1, threads),
                |h| {
                    let mut s = vec!["ab".to_string(); n];
                    s.extend(vec!["cd".to_string(); n - 1]);
                    let g = c13::gen(3, None, None, &["ef"], &["cd"]);
                    let c = counts(&g, &s);
                    let v = once(threads, 0, || c13::produce(&g, 1.0, &[&s], 1000))?;
                    did(h, &("n", n, threads), n);
                    check_generated(&g, &c, 1000, &v)
                },
            );
        }
        h.case(
            || format!("generate from one sample of {} bytes", n),
            |h| {
                let mut s = String::new();
                let mut i = 0;
                while s.len() < n {
                    s.push_str(&format!("{:x}.", i * 7919 % 65_521));
                    i += 1;
                }
                s.truncate(n);
                let s = [s, "ff".into(), "ff.".into()];
                for size in [c13::HUGE, 600] {
                    let g = c13::gen(3, None, None, &[], &[]);
                    let c = counts(&g, &s);
                    let v = once(2, 0, || c13::produce(&g, 1.0, &[&s], size))?;
                    check_generated(&g, &c, size, &v)?;
                }
                did(h, &("len", n), n);
                Ok(())
            },
        );
        if n <= 600 {
            h.case(
                || format!("generate tokens of up to {} bytes", n),
                |h| {
                    for extra in [0, 1, 2] {
                        let s = [(0..n + extra).map(|i| (b'a' + (i * i % 23) as u8) as char).collect::<String>(), "ab".into()];
                        let g = c13::gen(n, None, None, &[], &[]);
                        let c = counts(&g, &s);
                        let v = once(2, 0, || c13::produce(&g, 1.0, &[&s], c13::HUGE))?;
                        check_generated(&g, &c, c13::HUGE, &v)?;
                    }
                    did(h, &("max", n), n);
                    Ok(())
                },
            );
        }
    }
}

pub fn mine(h: &mut H) {
    let top = h.pick(140_000, 200_000);
    for n in sizes(h, top) {
        for way in 0..5usize {
            h.case(
                || format!("mine {} {}", n, ["different matches in one sample", "different matches in as many samples", "equal matches in one sample", "equal matches in as many samples", "different matches, each again in a later sample"][way]),
                |h| {
                    let w = |i: usize| format!("{}", if way == 2 || way == 3 { 5 } else { i });
                    let mut samples: Vec<String> = match way {
                        0 | 2 | 4 => vec![(0..n).map(w).collect::<Vec<_>>().join(" ")],
                        _ => (0..n).map(w).collect(),
                    };
                    samples.push("7 8 9 7".into());
                    if way == 4 {
                        samples.push((0..n).step_by(3).map(w).collect::<Vec<_>>().join(" "));
                        samples.push("".into());
                        samples.push((0..n).step_by(2).map(w).collect::<Vec<_>>().join(" "));
                    }
                    let mut want = std::collections::BTreeMap::new();
                    for s in &samples {
                        for t in s.split(' ').filter(|t| !t.is_empty()) {
                            *want.entry(t.to_string()).or_insert(0usize) += 1;
                        }
                    }
                    for (k, threads) in [(3usize, 1usize), (1_000_000, 2), (n, 1)] {
                        let got = once(threads, 0, || c19::mine(k, "[0-9]+", &samples))?;
                        check_mined(&want, k, &got)?;
                    }
                    did(h, &(n, way), n);
                    Ok(())
                },
            );
        }
    }
}

pub fn merge(h: &mut H) {
    let top = h.pick(70_000, 200_000);
    for n in sizes(h, top) {
        for way in 0..3usize {
            h.case(
                || format!("merging over {}", [format!("one sample of {} bytes", n), format!("{} samples", n), format!("{} samples, each pair {} times", 2 * n - 1, n)][way]),
                |h| {
                    let vocab = c18::vocabs().swap_remove(1);
                    let samples: Vec<String> = match way {
                        0 => {
                            let mut s: String = (0..n).map(|i| ["a", "b", " ", "ba", "bb"][(i * i + i / 7) % 5]).collect();
                            s.truncate(n);
                            vec![s, "b a".into()]
                        }
                        1 => (0..n).map(|i| ["ab", "b", "aba", "ba b", " ", "é"][i % 6].to_string() + &"ba".repeat(i % 3)).collect(),
                        _ => (0..n).map(|_| "b ".to_string()).chain((1..n).map(|_| " b".to_string())).collect(),
                    };
                    let m = Merge { allow: "^.*$", num: 5, step: 2, scale: 0.9, max_len: 8 };
                    for threads in [1usize, 3] {
                        let o = once(threads, 0, || c18::merge(&m, &vocab, &samples))?;
                        if !c18::check(&m, &vocab, &samples, &o)? {
                            h.count("ambiguous_skipped", 1);
                        }
                    }
                    did(h, &(n, way), n);
                    Ok(())
                },
            );
        }
    }
}

/// Letters, then tokens that occur nowhere, then tokens that do: the ids in use
/// lie on both sides of `n`.
fn wide(n: usize, keep: bool) -> Vec<T> {
    let mut v: Vec<T> = "abcdefgh ".chars().enumerate().map(|(i, c)| tk(&c.to_string(), -2.0 - i as f64 / 64.0, true)).collect();
    let late = ["abc", "def", "gh", "bcd", "ef"];
    while v.len() + 3 < n {
        v.push(tk(&format!("Q{:x}", v.len()), -9.0 - (v.len() % 1000) as f64 / 1024.0, keep && v.len() % 3 == 0));
    }
    for (i, l) in late.iter().enumerate() {
        v.push(tk(l, -2.25 - i as f64 / 32.0, false));
    }
    v
}

pub fn merge_wide(h: &mut H) {
    let top = h.pick(140_000, 300_000);
    for n in sizes(h, top) {
        h.case(
            || format!("merging with a vocabulary of {} tokens", n),
            |h| {
                let vocab = wide(n, true);
                let samples = ["abcdef", "abcdefgh", "abcdefabc gh gh", "ghdef ghdef", "bcd ef ef a"].map(|s| s.to_string());
                for m in [Merge { allow: "^.*$", num: 1, step: 1, scale: 0.9, max_len: 8 }, Merge { allow: "^[a-h]+$", num: 4, step: 2, scale: 0.5, max_len: 20 }] {
                    let o = once(2, 0, || c18::merge(&m, &vocab, &samples))?;
                    if !c18::check(&m, &vocab, &samples, &o)? {
                        h.count("ambiguous_skipped", 1);
                    }
                }
                did(h, &("wide", n), n);
                Ok(())
            },
        );
    }
}

pub fn prune_wide(h: &mut H) {
    let top = h.pick(140_000, 300_000);
    for n in sizes(h, top) {
        h.case(
            || format!("pruning a vocabulary of {} tokens", n),
            |h| {
                let vocab = wide(n, true);
                let kept = vocab.iter().filter(|t| t.keep).count();
                let samples = ["abcdef", "abcdefgh", "abcdefabc gh gh", "ghdef ghdef", "bcd ef ef a"].map(|s| s.to_string());
                for p in [Prune { size: kept + 2, shrink: 0.75, em: 1 }, Prune { size: n / 2, shrink: 0.9, em: 0 }, Prune { size: n - 1, shrink: 0.8, em: 2 }] {
                    let v = once(2, 0, || c16::prune(&p, 0.0, &vocab, &samples)).and_then(|r| r)?;
                    c15::check(&vocab, &p, &v)?;
                }
                did(h, &("wide", n), n);
                Ok(())
            },
        );
    }
}

/// The samples repeat with a period that divides the length at which the
/// program cuts samples, and no token lies across the end of a period: where it
/// cuts makes no difference.
pub fn prune(h: &mut H) {
    let top = h.pick(200_000, 400_000);
    for n in sizes(h, top).into_iter().chain([81_919, 81_928, 163_839, 163_840, 163_841]) {
        for way in 0..2usize {
            h.case(
                || format!("pruning over {}", [format!("one sample of {} bytes", n), format!("{} samples", n)][way]),
                |h| {
                    let vocab = c16::vocab_of(&["a", "b", "c", "d"], &["ab", "ba", "abb", "bab"], |_, s| s.len() == 1, 1);
                    let samples: Vec<String> = match way {
                        0 => {
                            let mut s = "abbababc".repeat(n / 2 / 8 + 1) + &"babababc".repeat(n / 8 + 1);
                            s.truncate(n - n / 64);
                            // what comes last is not seen before
                            s.push_str(&"d".repeat(n / 64));
                            vec![s]
                        }
                        _ => (0..n.min(h.pick(20_000, 400_000))).map(|i| ["ab", "babc", "abba", "ddd", "bba", "cab"][i % 6].to_string()).collect(),
                    };
                    for (p, threads) in [(Prune { size: 6, shrink: 0.5, em: 1 }, 1), (Prune { size: 6, shrink: 0.8, em: 2 }, 3)] {
                        c16::compare(h, &vocab, &samples, &p, threads, threads > 1)?;
                    }
                    Ok(())
                },
            );
        }
    }
}
