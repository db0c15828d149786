pub use crate::api::produce;
use crate::ex::*;
use crate::train::*;
use std::collections::BTreeSet;

pub const HUGE: usize = 1_000_000;

pub fn gen(max_len: usize, split: Option<&'static str>, allow: Option<&'static str>, added: &[&str], suggested: &[&str]) -> Gen {
    Gen { max_len, split, allow, added: strs(added), suggested: strs(suggested) }
}

fn settings() -> Vec<Gen> {
    vec![
        gen(24, None, None, &[], &[]),
        gen(1, None, None, &[], &[]),
        gen(2, None, None, &["ab", "zz"], &["b é", "ab"]),
        gen(3, None, Some(r"^[abé]+$"), &["aé", "a b", "a", "é", "aé"], &["ba", "é"]),
        gen(4, None, Some(r"^ ?[a-z]+$"), &[], &["qq", "a"]),
        gen(5, Some(r"[abé]+| +"), None, &["b a"], &[]),
        gen(3, Some(r"(?<= )[a-zé]+"), Some(r"^.{1,2}$"), &[], &["é b"]),
        gen(4, Some(r"a(?=b)|b."), None, &["q"], &["ab", "bb"]),
        gen(2, Some(r"[ab]b"), Some(r"b"), &["bb", "ab"], &["bb"]),
        gen(0, None, None, &["ab"], &["a "]),
    ]
}

/// Ways of cutting a list into consecutive calls.
fn cuts(s: &[String]) -> Vec<Vec<&[String]>> {
    (0..1u32 << s.len().saturating_sub(1))
        .map(|m| {
            let mut out = vec![];
            let mut from = 0;
            for i in 1..=s.len() {
                if i == s.len() || m >> (i - 1) & 1 == 1 {
                    out.push(&s[from..i]);
                    from = i;
                }
            }
            out
        })
        .collect()
}

fn sizes(c: &std::collections::BTreeMap<String, usize>, quick: bool) -> Vec<usize> {
    let n = c.keys().filter(|t| t.len() > 1).count();
    if quick {
        let mut v: Vec<usize> = vec![255, 255 + 2, 255 + 1 + n / 2, 255 + n, HUGE];
        v.dedup();
        v
    } else {
        let mut v: Vec<usize> = (253..=255 + n + 2).collect();
        v.extend([0, 1, 100, HUGE]);
        v
    }
}

pub fn run_all(h: &mut H) {
    let quick = h.quick();
    // 1. exact counts
    let words = strings(&["a", "b", "é", " "], 1, 3);
    let short = strings(&["a", "b", "é", " "], 1, 2);
    let mut corpora: Vec<Vec<String>> = vec![vec![]];
    corpora.extend(words.iter().map(|w| vec![w.clone()]));
    corpora.extend(seqs(&short, 2, 2));
    corpora.extend(seqs(&strs(&["ab", "aab", "b a", "éa"]), 3, h.pick(3, 4)));
    for s in strings(&["ab", "b", " é", "a "], 3, h.pick(4, 5)) {
        corpora.push(vec![s.clone(), "ab b".into(), s.chars().rev().collect()]);
    }
    for (k, g) in settings().into_iter().enumerate() {
        for samples in &corpora {
            let c = counts(&g, samples);
            h.case(
                || format!("generate from {:?} with {:?}, all sizes, every division into calls", samples, g),
                |h| {
                    for size in sizes(&c, quick) {
                        for (i, feeds) in cuts(samples).into_iter().enumerate() {
                            if i > 0 && size != HUGE && quick {
                                continue;
                            }
                            let threads = [1, 2, 8][(i + size + k) % 3];
                            let v = once(threads, if i % 2 == 0 { 0 } else { u64::MAX }, || produce(&g, 1.0, &feeds, size))?;
                            h.traces += 1;
                            h.trans += 1 + samples.iter().map(|s| s.len() as u64).sum::<u64>();
                            h.state(&v.iter().filter(|t| t.len() > 1).map(|t| (t.value.clone(), t.score.to_bits(), t.keep)).collect::<Vec<_>>());
                            check_generated(&g, &c, size, &v).map_err(|e| format!("size {}, calls {:?}: {}", size, feeds.iter().map(|f| f.len()).collect::<Vec<_>>(), e))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // 2. realistic text, larger numbers of samples, long tokens
    let text = "fn main() {\n    let x = vec![1, 2];\n}\n";
    for n in [1usize, 2, 5, 7, 16, 33, 100] {
        for g in [gen(24, None, None, &["fn ", "main"], &["let ", "    "]), gen(8, Some(r" ?\w+|\n| +|[^\w\s]+"), Some(r"^ ?[a-z]+$|^\s+$"), &[], &[]), gen(70, None, None, &[], &["vec!"])] {
            h.case(
                || format!("generate from {} overlapping pieces of source text with {:?}", n, g),
                |h| {
                    let samples: Vec<String> = (0..n).map(|i| text[i % 20..(i % 20 + 3 + i % 13).min(text.len())].to_string()).collect();
                    let c = counts(&g, &samples);
                    let m = c.keys().filter(|t| t.len() > 1).count();
                    for (i, size) in [0, 255, 300, 255 + m / 2, 255 + m, HUGE].into_iter().enumerate() {
                        for feeds in [vec![&samples[..]], vec![&samples[..n / 2], &samples[n / 2..]]] {
                            let v = once([1, 3, 8][i % 3], 0, || produce(&g, 1.0, &feeds, size))?;
                            h.traces += 1;
                            h.trans += n as u64;
                            check_generated(&g, &c, size, &v).map_err(|e| format!("size {}: {}", size, e))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // 3. every outcome of the draws
    let tiny = strings(&["a", "b"], 1, 2);
    let mut few: Vec<Vec<String>> = tiny.iter().map(|w| vec![w.clone()]).collect();
    few.extend(seqs(&strs(&["a", "ab", "é"]), 2, 2));
    few.extend([strs(&["aba"]), strs(&["aab"]), strs(&["ab", "b", "ab"])]);
    for p in [0.1, 0.5, 0.9] {
        let below = ((p - 1e-3) * 2f64.powi(64)) as u64;
        let above = ((p + 1e-3) * 2f64.powi(64)) as u64;
        for g in [gen(24, None, None, &[], &[]), gen(24, None, None, &["ab"], &["é", "ba"]), gen(2, Some("[ab]+"), None, &[], &["ab"])] {
            for samples in &few {
                h.case(
                    || format!("generate from {:?} with {:?}, insert probability {}, every outcome of the draws", samples, g, p),
                    |h| {
                        let exact = counts(&g, samples);
                        let mut c = cfg(1, 0, 1 << 13);
                        c.sched = false;
                        c.rng = Rng::Choices(vec![below, above]);
                        let mut subsets: BTreeSet<Vec<Vec<u8>>> = BTreeSet::new();
                        run(h, &c, || produce(&g, p, &[samples], HUGE), |_, v| {
                            let f = check_lower(&g, &exact, &v)?;
                            subsets.insert(f.keys().cloned().collect());
                            Ok(())
                        })?;
                        h.count("draw_outcome_sets", subsets.len() as u64);
                        // the threshold lies at p
                        let all = once(1, below, || produce(&g, p, &[samples], HUGE))?;
                        check_generated(&g, &exact, HUGE, &all).map_err(|e| format!("every draw just below {}: {}", p, e))?;
                        let none = once(1, above, || produce(&g, p, &[samples], HUGE))?;
                        let only = counts(&g, &[]);
                        check_generated(&g, &only, HUGE, &none).map_err(|e| format!("every draw just above {}: {}", p, e))?;
                        h.traces += 2;
                        Ok(())
                    },
                );
            }
        }
    }
    for samples in &few {
        for draw in [0u64, 1, 1 << 63, u64::MAX] {
            h.case(
                || format!("generate from {:?} with insert probability 0 and 1, every draw {:#x}", samples, draw),
                |h| {
                    let g = gen(24, None, None, &["ab"], &["bb"]);
                    let v = once(2, draw, || produce(&g, 0.0, &[samples], HUGE))?;
                    check_generated(&g, &counts(&g, &[]), HUGE, &v)?;
                    let v = once(2, draw, || produce(&g, 1.0, &[samples], HUGE))?;
                    h.traces += 2;
                    h.trans += 3;
                    check_generated(&g, &counts(&g, samples), HUGE, &v)
                },
            );
        }
    }
    // 4. schedules
    for (k, g) in settings().into_iter().enumerate() {
        for samples in [strs(&["ab", "ab"]), strs(&["aéb", "b a", "éb"])] {
            for threads in [2usize, 3] {
                h.case(
                    || format!("generate from {:?} with {:?} on {} threads", samples, g, threads),
                    |h| {
                        let c = counts(&g, &samples);
                        let size = if k % 2 == 0 { HUGE } else { 258 };
                        run(h, &cfg(threads, 1, if quick { 1500 } else { 30_000 }), || produce(&g, 1.0, &[&samples], size), |_, v| check_generated(&g, &c, size, &v))
                    },
                );
            }
        }
    }
    crate::big::generate(h);
}
