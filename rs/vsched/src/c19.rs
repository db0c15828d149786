pub use crate::api::mine;
use crate::ex::*;
use crate::train::check_mined;
use std::collections::BTreeMap;

type Matcher = fn(&str) -> Option<usize>;

/// Patterns with a hand-written description: length of the (leftmost-first)
/// match at the start of the text.
pub fn patterns() -> Vec<(&'static str, Matcher)> {
    fn run(s: &str, f: impl Fn(char) -> bool) -> usize {
        s.chars().take_while(|c| f(*c)).map(|c| c.len_utf8()).sum()
    }
    fn pos(n: usize) -> Option<usize> {
        if n > 0 {
            Some(n)
        } else {
            None
        }
    }
    vec![
        ("a", |s| s.starts_with('a').then_some(1)),
        ("aa", |s| s.starts_with("aa").then_some(2)),
        ("aba", |s| s.starts_with("aba").then_some(3)),
        ("a+", |s| pos(run(s, |c| c == 'a'))),
        ("a|ab", |s| s.starts_with('a').then_some(1)),
        ("ab|a", |s| if s.starts_with("ab") { Some(2) } else { s.starts_with('a').then_some(1) }),
        ("[ab]+", |s| pos(run(s, |c| c == 'a' || c == 'b'))),
        ("(?s).", |s| s.chars().next().map(|c| c.len_utf8())),
        ("(?s).+", |s| pos(s.len())),
        ("[ab]é?", |s| {
            let c = s.chars().next()?;
            if c != 'a' && c != 'b' {
                return None;
            }
            Some(1 + if s[1..].starts_with('é') { 2 } else { 0 })
        }),
    ]
}

pub fn occurrences(f: Matcher, samples: &[String]) -> BTreeMap<String, usize> {
    let mut out = BTreeMap::new();
    for s in samples {
        let mut i = 0;
        while i < s.len() {
            if !s.is_char_boundary(i) {
                i += 1;
                continue;
            }
            match f(&s[i..]) {
                Some(n) => {
                    *out.entry(s[i..i + n].to_string()).or_insert(0) += 1;
                    i += n;
                }
                None => i += 1,
            }
        }
    }
    out
}

pub fn run_all(h: &mut H) {
    let quick = h.quick();
    let mut corpora: Vec<Vec<String>> = vec![vec![]];
    corpora.extend(strings(&["a", "b", "é"], 0, h.pick(5, 7)).into_iter().map(|s| vec![s]));
    corpora.extend(seqs(&strings(&["a", "b"], 0, 3), 2, 2));
    corpora.extend(seqs(&strs(&["ab", "aab", "a", "éab"]), 3, h.pick(3, 5)));
    for (p, f) in patterns() {
        for samples in &corpora {
            h.case(
                || format!("mine {:?} in {:?}", p, samples),
                |h| {
                    let want = occurrences(f, samples);
                    let ns: Vec<usize> = if quick { vec![0, 1, 2, want.len(), 1000] } else { (0..=want.len() + 1).chain([1000]).collect() };
                    for n in ns {
                        let threads = [1, 2, 3, 8][n % 4];
                        let got = once(threads, 0, || mine(n, p, samples))?;
                        h.traces += 1;
                        h.trans += 1 + samples.len() as u64;
                        h.state(&got);
                        check_mined(&want, n, &got).map_err(|e| format!("n {} on {} threads: {}", n, threads, e))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // chunks: every number of samples and of threads
    for k in (0..=h.pick(48, 200)).chain([333, 1000]) {
        for threads in [1usize, 2, 3, 4, 8] {
            h.case(
                || format!("mine [ab]+ in {} samples on {} threads", k, threads),
                |h| {
                    let samples: Vec<String> = (0..k).map(|i| ["ab", "ba a", "", "bbb ab ab", "é"][i % 5].to_string() + &"a".repeat(i % 7)).collect();
                    let f = patterns()[6].1;
                    let want = occurrences(f, &samples);
                    let got = once(threads, 0, || mine(5, "[ab]+", &samples))?;
                    check_mined(&want, 5, &got)?;
                    h.traces += 1;
                    h.trans += k as u64;
                    let mut c = cfg(threads, 1, if quick { 20 } else { 100 });
                    c.costed_steals = true;
                    run(h, &c, || mine(5, "[ab]+", &samples), |_, g| check_mined(&want, 5, &g))
                },
            );
        }
    }
    // schedules
    for (p, f) in patterns() {
        for samples in [strs(&["ab", "ab"]), strs(&["ab", "b a", "aé"]), strs(&["aab", "a", "ba", "b"])] {
            for threads in [2usize, 3] {
                h.case(
                    || format!("mine {:?} in {:?} on {} threads", p, samples, threads),
                    |h| {
                        let want = occurrences(f, &samples);
                        run(h, &cfg(threads, 2, if quick { 2500 } else { 100_000 }), || mine(2, p, &samples), |_, g| check_mined(&want, 2, &g))
                    },
                );
            }
        }
    }
    crate::big::mine(h);
}
