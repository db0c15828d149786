use crate::api::Progress;
use crate::c13::{gen, produce, HUGE};
use crate::c16::{prune, vocab_of};
use crate::c18::{self, merge};
use crate::c19::{mine, occurrences, patterns};
use crate::ex::*;
use crate::train::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// Completion reports of the current execution: (text, work done by then).
static REPORTS: Mutex<Vec<(String, u64, usize)>> = Mutex::new(vec![]);
static DONE: AtomicUsize = AtomicUsize::new(0);

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let s = format!("{}", r.args());
        if s.contains("FINISHED") {
            let (d, n) = (vx::rng_draws(), DONE.load(SeqCst));
            REPORTS.lock().unwrap_or_else(|e| e.into_inner()).push((s, d, n));
        }
    }
    fn flush(&self) {}
}

fn reset() {
    REPORTS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    DONE.store(0, SeqCst);
}

/// Every thread that was started has ended (the execution is over); each must
/// have reported once.
fn reports(others: usize) -> std::result::Result<Vec<(String, u64, usize)>, String> {
    let r = REPORTS.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let n = vx::SPAWNED.load(SeqCst) - others;
    if !PLAIN && r.len() != n {
        return Err(format!("{} progress reporters were started, {} completions were reported: {:?}", n, r.len(), r));
    }
    Ok(r)
}

pub fn run_all(h: &mut H) {
    static L: Logger = Logger;
    let _ = log::set_logger(&L);
    log::set_max_level(log::LevelFilter::Trace);
    let quick = h.quick();
    // 1. the progress protocol itself
    for samples in 0..=h.pick(4, 6) {
        for (workers, bound) in h.pick(vec![(1usize, 3u32), (2, 2), (3, 1)], vec![(1, 4), (2, 3), (3, 2)]) {
            for explicit in [true, false] {
                h.case(
                    || format!("progress of {} samples over {} workers, explicit finish: {}", samples, workers, explicit),
                    |h| {
                        run(
                            h,
                            &cfg(4, bound, if quick { 20_000 } else { 400_000 }),
                            || {
                                reset();
                                let t = Progress::start(samples);
                                vstd::thread::scope(|s| {
                                    for w in 0..workers {
                                        let t = &t;
                                        s.spawn(move || {
                                            let mine = samples / workers + usize::from(w < samples % workers);
                                            if mine == 0 {
                                                return;
                                            }
                                            let mut l = t.local(mine);
                                            for _ in 0..mine {
                                                vx::point();
                                                DONE.fetch_add(1, SeqCst);
                                                l.record(3);
                                            }
                                            l.finish();
                                        });
                                    }
                                });
                                if explicit {
                                    t.finish();
                                }
                            },
                            |_, _| {
                                for (s, _, n) in reports(workers)? {
                                    if n != samples {
                                        return Err(format!("completion was reported ({}) when {} of {} samples were done", s, n, samples));
                                    }
                                }
                                Ok(())
                            },
                        )
                    },
                );
            }
        }
    }
    // 2. whole steps
    let all = strs(&["ab", "bab", "aab", "b", "abab"]);
    for n in 0..=h.pick(3, 5) {
        let samples = all[..n].to_vec();
        for (threads, bound, cap) in h.pick(vec![(1usize, 2u32, 1000u64), (2, 2, 1500), (3, 1, 1000)], vec![(1, 4, 60_000), (2, 3, 100_000), (3, 2, 100_000), (4, 1, 60_000)]) {
            for (num, step) in [(1usize, 1usize), (2, 1), (40, 3)] {
                h.case(
                    || format!("merging {} (step {}) over {:?} on {} threads with its reporters", num, step, samples, threads),
                    |h| {
                        let vocab = c18::vocabs().swap_remove(0);
                        let m = Merge { allow: "^[ab]+$", num, step, scale: 0.9, max_len: 4 };
                        run(
                            h,
                            &cfg(threads, bound, cap),
                            || {
                                reset();
                                merge(&m, &vocab, &samples)
                            },
                            |_, o| {
                                reports(0)?;
                                c18::check(&m, &vocab, &samples, &o)?;
                                Ok(())
                            },
                        )
                    },
                );
            }
            for (size, em, drop) in [(3usize, 1usize, 0.0), (0, 2, 0.0), (2, 1, 0.5), (5, 0, 0.0)] {
                h.case(
                    || format!("pruning to {} with {} iterations and dropout {} over {:?} on {} threads with its reporters", size, em, drop, samples, threads),
                    |h| {
                        let vocab = vocab_of(&["a", "b"], &["ab", "ba", "aab", "bb"], |_, s| s.len() == 1, 1);
                        let p = Prune { size, shrink: 0.1, em };
                        let want = if drop == 0.0 { pruned(&vocab, &samples, &p) } else { None };
                        let mut c = cfg(threads, bound, cap);
                        c.rng = Rng::Fixed(u64::MAX);
                        run(
                            h,
                            &c,
                            || {
                                reset();
                                let r = prune(&p, drop, &vocab, &samples);
                                (r, vx::rng_draws())
                            },
                            |_, (r, draws)| {
                                let v = r?;
                                crate::c15::check(&vocab, &p, &v)?;
                                if let Some(w) = &want {
                                    same_vocab(w, &v)?;
                                }
                                for (s, d, _) in reports(0)? {
                                    // all draws are made in the single expectation step
                                    if em == 1 && s.contains("E-step") && d != draws && size >= 2 {
                                        return Err(format!("completion was reported ({}) when {} of {} candidates had been looked at", s, d, draws));
                                    }
                                }
                                Ok(())
                            },
                        )
                    },
                );
            }
            h.case(
                || format!("generating and mining over {:?} on {} threads", samples, threads),
                |h| {
                    let g = gen(2, None, None, &[], &[]);
                    let c = counts(&g, &samples);
                    let (p, f) = patterns()[6];
                    let want = occurrences(f, &samples);
                    run(
                        h,
                        &cfg(threads, bound.min(1), cap),
                        || {
                            reset();
                            (produce(&g, 1.0, &[&samples], HUGE), mine(2, p, &samples))
                        },
                        |_, (v, m)| {
                            reports(0)?;
                            check_generated(&g, &c, HUGE, &v)?;
                            check_mined(&want, 2, &m)
                        },
                    )
                },
            );
        }
    }
    // 3. every number of samples and threads
    for n in 0..=h.pick(40, 130) {
        for threads in [1usize, 2, 3, 4, 8, 16] {
            h.case(
                || format!("merging and pruning over {} samples on {} threads with their reporters", n, threads),
                |h| {
                    let samples: Vec<String> = (0..n).map(|i| all[i % 5].clone()).collect();
                    let vocab = vocab_of(&["a", "b"], &["ab", "ba", "aab", "bb"], |_, s| s.len() == 1, 1);
                    for helpers in [false, true] {
                        let mut c = cfg(threads, 1, if quick { 4 } else { 40 });
                        c.costed_steals = !helpers;
                        let m = Merge { allow: "^[ab]+$", num: 2, step: 1, scale: 0.9, max_len: 6 };
                        run(h, &c, || { reset(); merge(&m, &vocab, &samples) }, |_, o| { reports(0)?; c18::check(&m, &vocab, &samples, &o).map(|_| ()) }).map_err(|e| format!("merge: {}", e))?;
                        let p = Prune { size: 3, shrink: 0.5, em: 1 };
                        run(h, &c, || { reset(); prune(&p, 0.0, &vocab, &samples) }, |_, r| { reports(0)?; crate::c15::check(&vocab, &p, &r?) }).map_err(|e| format!("prune: {}", e))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // 4. magnitudes: numbers of samples and bytes past every power of two
    for n in crate::big::sizes(h, h.pick(140_000, 200_000)) {
        for workers in [1usize, 3] {
            h.case(
                || format!("progress of {} samples over {} workers", n, workers),
                |h| {
                    run(
                        h,
                        &cfg(4, 0, 1),
                        || {
                            reset();
                            let t = Progress::start(n);
                            vstd::thread::scope(|s| {
                                for w in 0..workers {
                                    let t = &t;
                                    s.spawn(move || {
                                        let mine = n / workers + usize::from(w < n % workers);
                                        // some samples one by one, the others in one piece
                                        for k in std::iter::repeat(1).take(mine.min(40)).chain(std::iter::once(mine.saturating_sub(40))) {
                                            if k == 0 {
                                                continue;
                                            }
                                            let mut l = t.local(k);
                                            for _ in 0..k {
                                                l.record(1 << 20);
                                            }
                                            vx::point();
                                            DONE.fetch_add(k, SeqCst);
                                            l.finish();
                                        }
                                    });
                                }
                            });
                        },
                        |_, _| {
                            for (s, _, d) in reports(workers)? {
                                if d != n {
                                    return Err(format!("completion was reported ({}) when {} of {} samples were done", s, d, n));
                                }
                            }
                            Ok(())
                        },
                    )
                },
            );
        }
        if n > h.pick(20_000, 200_000) {
            continue;
        }
        for threads in [1usize, 8] {
            h.case(
                || format!("merging and pruning over {} samples on {} threads with their reporters", n, threads),
                |h| {
                    let samples: Vec<String> = (0..n).map(|i| all[i % 5].clone()).collect();
                    let vocab = vocab_of(&["a", "b"], &["ab", "ba", "aab", "bb"], |_, s| s.len() == 1, 1);
                    let c = cfg(threads, 0, 1);
                    let m = Merge { allow: "^[ab]+$", num: 2, step: 1, scale: 0.9, max_len: 6 };
                    run(h, &c, || { reset(); merge(&m, &vocab, &samples) }, |_, o| { reports(0)?; c18::check(&m, &vocab, &samples, &o).map(|_| ()) }).map_err(|e| format!("merge: {}", e))?;
                    let p = Prune { size: 3, shrink: 0.5, em: 1 };
                    run(h, &c, || { reset(); prune(&p, 0.0, &vocab, &samples) }, |_, r| { reports(0)?; crate::c15::check(&vocab, &p, &r?) }).map_err(|e| format!("prune: {}", e))?;
                    Ok(())
                },
            );
        }
    }
}
