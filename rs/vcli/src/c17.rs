//! C17: filtering.
use crate::util::*;
use crate::api::filter;

#[derive(Clone, Debug, PartialEq)]
struct F {
    size: usize,
    min: Option<f64>,
    force: bool,
}

/// The reference: what may be removed, how much must be, which may remain.
fn check(h: &mut H, v: &[T], f: &F) -> std::result::Result<(), String> {
    h.traces += 1;
    h.trans += v.len() as u64; // one decision per token
    let mut m = model(v);
    let r = catch(|| filter(f.size, f.min, f.force, &mut m));
    let go = || -> std::result::Result<(), String> {
        r?;
        let got: Vec<T> = m.vocab().iter().map(|t| T { b: t.value.clone(), s: t.score, keep: t.keep }).collect();
        // tokens are distinct: match each one to where it came from
        let mut left = vec![false; v.len()];
        let place: std::collections::HashMap<&[u8], usize> = v.iter().enumerate().map(|(i, t)| (&t.b[..], i)).collect();
        for t in &got {
            match place.get(&t.b[..]).copied() {
                Some(i) if left[i] => return Err(format!("{} is there twice", hex(&t.b))),
                Some(i) if v[i] != *t => return Err(format!("{:?} became {:?}", v[i], t)),
                Some(i) => left[i] = true,
                None => return Err(format!("{} appeared", hex(&t.b))),
            }
        }
        let may: Vec<bool> = v.iter().map(|t| f.min.map_or(false, |m| t.s < m) && (f.force || !t.keep)).collect();
        let removed: Vec<usize> = (0..v.len()).filter(|&i| !left[i]).collect();
        for &i in &removed {
            if !may[i] {
                return Err(format!("{:?} was removed", v[i]));
            }
        }
        let want = may.iter().filter(|m| **m).count().min(v.len().saturating_sub(f.size));
        if removed.len() != want {
            return Err(format!("{} tokens removed instead of {}", removed.len(), want));
        }
        // lowest first
        let hi = removed.iter().map(|&i| v[i].s).fold(f64::NEG_INFINITY, f64::max);
        for i in 0..v.len() {
            if left[i] && may[i] && v[i].s < hi {
                return Err(format!("{:?} stayed although a token with score {} went", v[i], hi));
            }
        }
        if v.len() <= f.size {
            if got != v {
                return Err("a vocabulary small enough was changed".into());
            }
        } else if got.windows(2).any(|w| w[0].s < w[1].s) {
            return Err("the remaining tokens are not in descending order of score".into());
        }
        // the model works on the new vocabulary
        for (i, t) in got.iter().enumerate() {
            if m.token_to_id(&t.b) != Some(i as u32) || m.id_to_token(i as u32).map(|x| x.value) != Some(t.b.clone()) {
                return Err(format!("id of {} is {:?} instead of {}", hex(&t.b), m.token_to_id(&t.b), i));
            }
        }
        for i in 0..v.len() {
            if !left[i] && m.token_to_id(&v[i].b).is_some() {
                return Err(format!("the removed {} still has an id", hex(&v[i].b)));
            }
        }
        Ok(())
    };
    go().map_err(|e| format!("{} (filter {:?} on {} tokens {:?})", e, f, v.len(), &v[..v.len().min(40)]))
}

pub fn run(h: &mut H) {
    let names = ["a", "b", "ab", "é", "ba", "aab", "b\u{0}"];
    let scores = [-1.0, -2.0, -3.5];
    let mins = [None, Some(f64::NEG_INFINITY), Some(-4.0), Some(-3.5), Some(-3.0), Some(-2.0), Some(-1.5), Some(-1.0), Some(0.0), Some(f64::INFINITY)];
    // A: every vocabulary of at most n tokens over three scores and keep marks
    let max = h.pick(5, 6);
    let choices: Vec<(f64, bool)> = scores.iter().flat_map(|s| [(*s, false), (*s, true)]).collect();
    for n in 0..=max {
        let heads = seqs(&choices, n.min(2), n.min(2));
        for head in heads {
            h.case(
                || format!("{} tokens, the first ones {:?}, every score in {:?} and keep mark for the others, every size, minimum and force", n, head, scores),
                |h| {
                    for tail in seqs(&choices, n - head.len(), n - head.len()) {
                        let v: Vec<T> = head.iter().chain(&tail).enumerate().map(|(i, c)| T { b: names[i].as_bytes().to_vec(), s: c.0, keep: c.1 }).collect();
                        h.state(&(n, &head.iter().chain(&tail).map(|c| ((c.0 * 2.0) as i64, c.1)).collect::<Vec<_>>()));
                        for size in 0..=n + 1 {
                            for min in mins {
                                for force in [false, true] {
                                    check(h, &v, &F { size, min, force })?;
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // B: close scores, zeros of both signs, extreme values
    let odd = [0.0, -0.0, -f64::MIN_POSITIVE, -1.0, -1.0 - f64::EPSILON, f64::MIN, -5e-324, 1.0];
    for (i, a) in odd.iter().enumerate() {
        h.case(
            || format!("three tokens, the first with score {:e}, the others among {:?}, minimum among the same", a, odd),
            |h| {
                for b in odd {
                    for c in odd {
                        for keep in 0..8 {
                            let v: Vec<T> = [*a, b, c].iter().enumerate().map(|(i, s)| T { b: names[i].as_bytes().to_vec(), s: *s, keep: keep >> i & 1 == 1 }).collect();
                            h.state(&("B", i, b.to_bits(), c.to_bits(), keep));
                            for size in 0..4 {
                                for min in odd {
                                    for force in [false, true] {
                                        check(h, &v, &F { size, min: Some(min), force })?;
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // magnitudes
    for k in 8..h.pick(17u32, 18) {
        for d in [-1i64, 0, 1] {
            let n = ((1i64 << k) + d) as usize;
            h.case(
                || format!("{} tokens, size limits and minima near both ends", n),
                |h| {
                    for arr in 0..2 {
                        let v: Vec<T> = (0..n).map(|i| T { b: format!("t{}", i).into_bytes(), s: if arr == 0 { -(i as f64) } else { -(((i * 7919) % 1009) as f64) / 8.0 }, keep: i % 100 == 7 }).collect();
                        for size in [0, 1, 255, 256, n - 1, n, n + 1] {
                            for (min, force) in [(None, false), (Some(0.5), true), (Some(0.5), false), (Some(-60.0), false)] {
                                check(h, &v, &F { size, min, force })?;
                            }
                        }
                    }
                    h.state(&("mag", n));
                    Ok(())
                },
            );
        }
    }
    // C: larger vocabularies, every size limit
    for n in h.pick(vec![20, 21, 33, 64, 257], vec![20, 21, 33, 64, 100, 257, 300, 1000]) {
        for arr in 0..4 {
            h.case(
                || format!("{} tokens, arrangement {}, every size limit", n, arr),
                |h| {
                    let v: Vec<T> = (0..n)
                        .map(|i| T {
                            b: format!("t{}", i).into_bytes(),
                            s: match arr {
                                0 => -(i as f64),
                                1 => i as f64 - n as f64,
                                2 => -(((i * 37) % 11) as f64),
                                _ => -(((i * 7919) % 1009) as f64) / 8.0,
                            },
                            keep: i % (arr + 3) == 1,
                        })
                        .collect();
                    h.state(&("C", n, arr));
                    let mut ss: Vec<f64> = v.iter().map(|t| t.s).collect();
                    ss.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    for size in (0..=n + 1).step_by(if n > 100 { 7 } else { 1 }) {
                        for q in [0, 1, n / 4, n / 2, n - 2, n - 1] {
                            for min in [None, Some(ss[q]), Some(ss[q] + 0.01)] {
                                for force in [false, true] {
                                    check(h, &v, &F { size, min, force })?;
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // D: filtering twice equals filtering once; ever tighter filters in a row
    for n in 0..5usize {
        h.case(
            || format!("chains of two filters on vocabularies of {} tokens", n),
            |h| {
                for cs in seqs(&choices, n, n) {
                    let v: Vec<T> = cs.iter().enumerate().map(|(i, c)| T { b: names[i].as_bytes().to_vec(), s: c.0, keep: c.1 }).collect();
                    for s1 in 0..n + 1 {
                        for m1 in [Some(-1.5), Some(-2.0), Some(0.0)] {
                            for force in [false, true] {
                                let mut m = model(&v);
                                filter(s1, m1, force, &mut m);
                                let v2: Vec<T> = m.vocab().iter().map(|t| T { b: t.value.clone(), s: t.score, keep: t.keep }).collect();
                                for s2 in 0..n + 1 {
                                    check(h, &v2, &F { size: s2, min: m1, force: !force })?;
                                    check(h, &v2, &F { size: s2, min: m1, force })?;
                                    check(h, &v2, &F { size: s2, min: Some(-1.5), force })?;
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}
