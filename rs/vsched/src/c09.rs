use crate::ex::*;

type Out = (std::result::Result<Vec<Vec<u32>>, String>, std::result::Result<Vec<Vec<u32>>, String>);

fn tokenizers() -> Vec<(&'static str, Tokenizer)> {
    let v = |s: &[(&str, f64)]| s.iter().map(|(b, s)| tk(b, *s, false)).collect::<Vec<_>>();
    let base = v(&[("a", -3.0), ("b", -3.5), ("ab", -4.0), ("ba", -2.0), ("bb", -1.0), ("aba", -4.5), ("é", -3.0), ("e", -1.0), ("\n", -1.0), ("s", -1.0), ("<", -7.0), (">", -7.5)]);
    let none: Vec<ProcessorWrapper> = vec![];
    vec![
        ("plain", Tokenizer::new(model(&base), none.clone(), ["<s>", "<b>"])),
        ("processors", Tokenizer::new(model(&base), vec![ProcessorWrapper::from(CrlfProcessor), UnicodeProcessor::Nfc.into()], ["<s>"])),
        ("no special tokens", Tokenizer::new(model(&base), none, Vec::<&str>::new())),
    ]
}

/// Items: distinct results, equal lengths with different contents, failing ones.
const ITEMS: [&str; 8] = ["", "ab", "ba", "abab<s>b", "x", "e\u{301}\r\n", "bbbbbbab", "<s><b>"];

fn enc_one(t: &Tokenizer, xs: &[String], d: f64) -> (Vec<std::result::Result<Vec<u32>, String>>, Vec<std::result::Result<Vec<u32>, String>>) {
    (xs.iter().map(|x| es(t.encode(x, d))).collect(), xs.iter().map(|x| es(t.encode_ordinary(x, d))).collect())
}

fn agree<X: PartialEq + std::fmt::Debug>(what: &str, batch: &std::result::Result<Vec<X>, String>, one: &[std::result::Result<X, String>]) -> Res {
    match batch {
        Ok(v) => {
            if v.len() != one.len() {
                return Err(format!("{} returns {} results for {} items", what, v.len(), one.len()));
            }
            for (i, (b, o)) in v.iter().zip(one).enumerate() {
                match o {
                    Ok(o) if o == b => {}
                    Ok(o) => {
                        let cut = |s: String| s.chars().take(200).collect::<String>();
                        return Err(format!("{}: item {} is {} in the batch, {} on its own", what, i, cut(format!("{:?}", b)), cut(format!("{:?}", o))));
                    }
                    Err(e) => return Err(format!("{}: item {} fails on its own ({}) but the batch succeeds", what, i, e)),
                }
            }
            Ok(())
        }
        Err(e) => {
            if one.iter().all(|o| o.is_ok()) {
                return Err(format!("{} fails ({}) although every item succeeds on its own", what, e));
            }
            Ok(())
        }
    }
}

fn encode_batch(t: &Tokenizer, xs: &[String], d: f64) -> Out {
    (es(t.encode_batch(xs, d)), es(t.encode_ordinary_batch(xs, d)))
}

fn items_of(xs: &[String]) -> String {
    let s = format!("{:?}", xs);
    if s.len() > 300 {
        format!("{} items {}...", xs.len(), s.chars().take(250).collect::<String>())
    } else {
        s
    }
}

pub fn run_all(h: &mut H) {
    let ts = tokenizers();
    // 1. every small batch, every division among threads
    let max = h.pick(3, 4);
    for (name, t) in &ts {
        for ixs in seqs(&(0..ITEMS.len()).collect::<Vec<_>>(), 0, max) {
            for threads in [1usize, 2, 3] {
                if threads == 1 && ixs.len() > 2 || threads == 3 && ixs.len() < 3 {
                    continue;
                }
                let xs: Vec<String> = ixs.iter().map(|&i| ITEMS[i].to_string()).collect();
                h.case(
                    || format!("tokenizer with {}: encode_batch and encode_ordinary_batch of {:?} on {} threads", name, xs, threads),
                    |h| {
                        let one = enc_one(t, &xs, 0.0);
                        run(h, &cfg(threads, 2, 20_000), || encode_batch(t, &xs, 0.0), |_, r| {
                            agree("encode_batch", &r.0, &one.0)?;
                            agree("encode_ordinary_batch", &r.1, &one.1)
                        })
                    },
                );
            }
        }
    }
    // 2. batches of every size: distinct items, then one failing item anywhere
    let t = &ts[0].1;
    let item = |i: usize| -> String {
        // every item has its own encoding
        let mut s = String::new();
        let mut k = i + 1;
        while k > 0 {
            s.push_str(["a", "b", "<s>"][k % 3]);
            k /= 3;
        }
        s
    };
    let small: Vec<usize> = (0..=h.pick(17, 40)).collect();
    let sizes: Vec<usize> = small.iter().copied().chain([31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 5000]).collect();
    for &n in &sizes {
        for threads in [1usize, 2, 3, 4, 8] {
            let xs: Vec<String> = (0..n).map(item).collect();
            let mut fails: Vec<Option<usize>> = vec![None];
            if n > 0 {
                if n <= 40 {
                    fails.extend((0..n).map(Some));
                } else {
                    fails.extend([0, 1, n / 2, n - 2, n - 1].map(Some));
                }
            }
            for fail in fails {
                let mut xs = xs.clone();
                if let Some(f) = fail {
                    xs[f] = "aXb".into();
                }
                h.case(
                    || format!("a batch of {} different texts on {} threads, failing item {:?}", n, threads, fail),
                    |h| {
                        let one = enc_one(t, &xs, 0.0);
                        // few hand-overs between threads when the batch is large
                        let mut c = cfg(threads, if n <= 6 { 2 } else if n <= 40 { 1 } else { 1 }, if n <= 64 { 400 } else { 12 });
                        c.costed_steals = n > 6;
                        run(h, &c, || encode_batch(t, &xs, 0.0), |_, r| {
                            agree("encode_batch", &r.0, &one.0)?;
                            agree("encode_ordinary_batch", &r.1, &one.1)
                        })
                    },
                );
            }
        }
    }
    // large batches, and long texts among short ones
    let big: Vec<usize> = vec![10_000, 16_384, 20_000, 32_768, 65_535, 65_536, 65_537, 100_000];
    for &n in &big {
        for threads in [1usize, 3, 8] {
            for fail in [None, Some(0), Some(n / 2), Some(n - 1)] {
                h.case(
                    || format!("a batch of {} different texts on {} threads, failing item {:?}", n, threads, fail),
                    |h| {
                        let mut xs: Vec<String> = (0..n).map(item).collect();
                        if let Some(f) = fail {
                            xs[f] = "aXb".into();
                        }
                        let one = enc_one(t, &xs, 0.0);
                        let mut c = cfg(threads, 1, h.pick(2, 6));
                        c.costed_steals = true;
                        c.step_limit = 100_000_000;
                        run(h, &c, || encode_batch(t, &xs, 0.0), |_, r| {
                            agree("encode_batch", &r.0, &one.0)?;
                            agree("encode_ordinary_batch", &r.1, &one.1)
                        })
                    },
                );
            }
        }
    }
    for len in [255usize, 256, 1023, 1024, 4095, 4096, 4097, 16_384, 65_535, 65_536, 65_537, 300_000, 1_100_000] {
        for n in [1usize, 2, 3, 9, 40] {
            for at in [0, n / 2, n - 1] {
                h.case(
                    || format!("a batch of {} texts with one of {} bytes at place {}", n, len, at),
                    |h| {
                        let mut xs: Vec<String> = (0..n).map(|i| item(i * 5 + 1)).collect();
                        // past 20 kB the special token comes rarely
                        let unit = if len > 20_000 { format!("abb<s>a{}", "abba".repeat(5_000)) } else { "abb<s>a".to_string() };
                        xs[at] = unit.chars().cycle().take(len).collect();
                        let one = enc_one(t, &xs, 0.0);
                        let ids: Vec<Vec<u32>> = one.0.iter().filter_map(|x| x.clone().ok()).collect();
                        let texts: Vec<_> = ids.iter().map(|x| es(t.decode(x, true))).collect();
                        for threads in [2usize, 8] {
                            let mut c = cfg(threads, 1, if len > 100_000 { 4 } else { 24 });
                            c.costed_steals = true;
                            c.step_limit = 100_000_000;
                            run(h, &c, || (encode_batch(t, &xs, 0.0), es(t.decode_batch(&ids, true))), |_, r| {
                                agree("encode_batch", &r.0 .0, &one.0)?;
                                agree("encode_ordinary_batch", &r.0 .1, &one.1)?;
                                agree("decode_batch", &r.1, &texts)
                            })?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // 3. dropout: with equal draws a batch equals the single calls
    for d in [-1.0, 0.0, 0.3, 1.0, 2.0] {
        for draw in [0u64, 1 << 63, u64::MAX] {
            for ixs in seqs(&[1usize, 3, 4, 6], 1, 3) {
                let xs: Vec<String> = ixs.iter().map(|&i| ITEMS[i].to_string()).collect();
                h.case(
                    || format!("batch {:?} at dropout {} with every draw equal to {:#x}", xs, d, draw),
                    |h| {
                        let one = once(1, draw, || enc_one(t, &xs, d))?;
                        let mut c = cfg(2, 2, 2000);
                        c.rng = Rng::Fixed(draw);
                        run(h, &c, || encode_batch(t, &xs, d), |_, r| {
                            agree("encode_batch", &r.0, &one.0)?;
                            agree("encode_ordinary_batch", &r.1, &one.1)
                        })
                    },
                );
            }
        }
    }
    // 4. decoding
    let idlists: Vec<Vec<u32>> = vec![vec![], vec![0, 1], vec![12, 2], vec![13, 13], vec![14], vec![5, u32::MAX, 3], vec![4, 4, 12, 0]];
    for (name, t) in &ts {
        for ixs in seqs(&(0..idlists.len()).collect::<Vec<_>>(), 0, max) {
            let xs: Vec<Vec<u32>> = ixs.iter().map(|&i| idlists[i].clone()).collect();
            for inc in [true, false] {
                h.case(
                    || format!("tokenizer with {}: decode_batch of {:?}, special tokens included: {}", name, xs, inc),
                    |h| {
                        let one: Vec<_> = xs.iter().map(|x| es(t.decode(x, inc))).collect();
                        run(h, &cfg(if xs.len() > 2 { 3 } else { 2 }, 2, 20_000), || es(t.decode_batch(&xs, inc)), |_, r| agree("decode_batch", &r, &one))
                    },
                );
            }
        }
    }
    for &n in &sizes {
        for threads in [1usize, 3, 8] {
            for fail in [None, Some(0), Some(n / 2), Some(n.saturating_sub(1))] {
                if n == 0 && fail.is_some() {
                    continue;
                }
                let mut xs: Vec<Vec<u32>> = (0..n).map(|i| vec![(i % 3) as u32, (i / 3 % 3) as u32, (i / 9 % 14) as u32, (i / 126 % 14) as u32, (i / 1764) as u32 % 14]).collect();
                if let Some(f) = fail {
                    xs[f] = vec![1, 99, 1];
                }
                h.case(
                    || format!("decode_batch of {} different id lists on {} threads, failing item {:?}", n, threads, fail),
                    |h| {
                        let one: Vec<_> = xs.iter().map(|x| es(t.decode(x, true))).collect();
                        let mut c = cfg(threads, if n <= 40 { 1 } else { 1 }, if n <= 64 { 400 } else { 12 });
                        c.costed_steals = n > 6;
                        run(h, &c, || es(t.decode_batch(&xs, true)), |_, r| agree("decode_batch", &r, &one))
                    },
                );
            }
        }
    }
    // 5. concurrent calls on one shared tokenizer, repeated on the same threads
    let works: Vec<Vec<&str>> = vec![vec!["ab", "ba"], vec!["ba", "bbab"], vec!["x", "ab"], vec!["abab<s>b"], vec!["bbbb", "bb"]];
    for (name, t) in &ts {
        for ab in seqs(&(0..works.len()).collect::<Vec<_>>(), 2, h.pick(2, 3)) {
            h.case(
                || format!("tokenizer with {}: concurrent callers encoding {:?}, then decoding the ids, then a batch", name, ab.iter().map(|&i| &works[i]).collect::<Vec<_>>()),
                |h| {
                    let want: Vec<Vec<_>> = ab.iter().map(|&i| works[i].iter().map(|w| { let e = es(t.encode(w, 0.0)); let d = e.clone().and_then(|e| es(t.decode(&e, true))); (e, d) }).collect()).collect();
                    let wantb: Vec<_> = ab.iter().map(|&i| works[i].iter().map(|w| es(t.encode(w, 0.0))).collect::<Vec<_>>()).collect();
                    let ab = &ab;
                    let works = &works;
                    run(
                        h,
                        &cfg(2, 3, 20_000),
                        || {
                            vstd::thread::scope(|s| {
                                let hs: Vec<_> = ab
                                    .iter()
                                    .map(|&i| {
                                        s.spawn(move || {
                                            let one: Vec<_> = works[i].iter().map(|w| { let e = es(t.encode(w, 0.0)); let d = e.clone().and_then(|e| es(t.decode(&e, true))); (e, d) }).collect();
                                            vx::point();
                                            let b = es(t.encode_batch(&works[i], 0.0));
                                            (one, b)
                                        })
                                    })
                                    .collect();
                                hs.into_iter().map(|h| h.join().map_err(|_| "a caller panicked".to_string())).collect::<Vec<_>>()
                            })
                        },
                        |_, r| {
                            for (k, x) in r.into_iter().enumerate() {
                                let (one, b) = x?;
                                if one != want[k] {
                                    return Err(format!("caller {} got {:?} instead of {:?}", k, one, want[k]));
                                }
                                agree("a concurrent encode_batch", &b, &wantb[k])?;
                            }
                            Ok(())
                        },
                    )
                },
            );
        }
    }
    // 6. the same batch again: nothing is remembered between calls
    for n in [1usize, 2, 3, 7, 64, 300] {
        h.case(
            || format!("three batches of {} texts after each other on one tokenizer, reversed in between", n),
            |h| {
                let xs: Vec<String> = (0..n).map(item).collect();
                let ys: Vec<String> = xs.iter().rev().cloned().collect();
                let (ox, oy) = (enc_one(t, &xs, 0.0), enc_one(t, &ys, 0.0));
                let mut c = cfg(3, 2, 300);
                c.costed_steals = true;
                run(h, &c, || (encode_batch(t, &xs, 0.0), encode_batch(t, &ys, 0.0), encode_batch(t, &xs, 0.0)), |_, r| {
                    for (b, o) in [(&r.0, &ox), (&r.1, &oy), (&r.2, &ox)] {
                        agree("encode_batch", &b.0, &o.0)?;
                        agree("encode_ordinary_batch", &b.1, &o.1)?;
                    }
                    Ok(())
                })
            },
        );
    }
}
