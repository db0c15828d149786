//! C10: common prefix search.
use crate::util::*;

fn expect(v: &[Vec<u8>], text: &[u8]) -> Vec<(u32, usize)> {
    let mut r: Vec<(u32, usize)> = v.iter().enumerate().filter(|(_, t)| !t.is_empty() && text.starts_with(t)).map(|(i, t)| (i as u32, t.len())).collect();
    r.sort_by_key(|x| x.1);
    r
}

fn check(h: &mut H, m: &Model, v: &[Vec<u8>], text: &[u8], buf: &mut Vec<u8>) -> std::result::Result<(), String> {
    h.traces += 1;
    h.trans += text.len() as u64; // one step of the walk per byte
    let got: Vec<(u32, usize)> = m.common_prefix_search(text, buf).map(|(i, l)| (i, l as usize)).collect();
    let want = expect(v, text);
    if got != want {
        return Err(format!("prefixes of {} among {} tokens: {:?}, expected {:?}", hex(text), v.len(), got, want));
    }
    Ok(())
}

fn mk(v: &[Vec<u8>]) -> Model {
    Model::from(v.iter().enumerate().map(|(i, b)| ScoredToken::new(b.clone(), dyadic(i), i % 2 == 0)).collect::<Vec<_>>())
}

pub fn run(h: &mut H) {
    let bytes: [u8; 3] = [b'a', 0x00, 0xff];
    let pool: Vec<Vec<u8>> = seqs(&bytes, 1, 2);
    let pool3: Vec<Vec<u8>> = seqs(&bytes, 1, 3);
    let texts = seqs(&bytes, 0, 4);
    // A: all subsets of the 12 byte strings of length 1 and 2 (+ one long)
    for sub in 0..1usize << pool.len() {
        h.case(
            || format!("tokens: subset {:#x} of {:02x?} (and one of length 4), all texts of at most 4 of {:02x?}", sub, pool, bytes),
            |h| {
                let mut v: Vec<Vec<u8>> = pool.iter().enumerate().filter(|(i, _)| sub >> i & 1 == 1).map(|(_, b)| b.clone()).collect();
                if sub % 3 == 0 {
                    v.insert(v.len() / 2, vec![b'a', 0, b'a', 0xff]);
                }
                if sub % 2 == 0 {
                    v.reverse();
                }
                let m = mk(&v);
                let mut buf = vec![];
                h.state(&sub);
                for t in &texts {
                    check(h, &m, &v, t, &mut buf)?;
                }
                Ok(())
            },
        );
    }
    // B: sets of at most 3 of the 39 strings, each order of insertion, added in pieces
    let n = h.pick(3, 4);
    let mut combos: Vec<Vec<usize>> = vec![];
    fn comb(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        if cur.len() == k {
            return;
        }
        for i in from..n {
            cur.push(i);
            comb(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    comb(pool3.len(), n, 0, &mut vec![], &mut combos);
    for group in combos.chunks(64) {
        h.case(
            || format!("64 token sets starting with {:?} of {} byte strings, later additions included", group[0], pool3.len()),
            |h| {
                for c in group {
                    let mut v: Vec<Vec<u8>> = c.iter().map(|&i| pool3[i].clone()).collect();
                    if c.iter().sum::<usize>() % 2 == 1 {
                        v.reverse();
                    }
                    let cut = c.len() / 2;
                    let mut m = mk(&v[..cut]);
                    let mut buf = vec![7, 7, 7];
                    check(h, &m, &v[..cut], &texts[30], &mut buf)?;
                    m.add_tokens(v[cut..].iter().map(|b| ScoredToken::new(b.clone(), -1.0, false)));
                    h.state(&v);
                    for t in texts.iter().skip(c.len() % 3).step_by(3) {
                        check(h, &m, &v, t, &mut buf)?;
                    }
                }
                Ok(())
            },
        );
    }
    // C: ladders
    let lens: Vec<usize> = vec![1, 2, 3, 4, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 250, 255, 256, 257, 258, 300, 511, 512, 513, 1024, 2000, 4097, 65535, 65536, 70000, 200_000, 1_000_000];
    for top in 1..=lens.len() {
        for (every, way) in [(1usize, 0), (2, 0), (3, 0), (1, 1), (1, 2), (1, 3), (3, 2)] {
            h.case(
                || format!("nested tokens of lengths {:?} (every {}th), {}, texts longer and shorter", &lens[..top], every, ["built at once", "added to an empty model", "half of them added one by one", "two thirds added, saved and read back"][way]),
                |h| {
                    let ls: Vec<usize> = lens[..top].iter().copied().step_by(every).collect();
                    let n = std::thread::Builder::new()
                        .stack_size(2 << 20) // that of a worker thread
                        .spawn(move || -> std::result::Result<u64, String> {
                            let v: Vec<Vec<u8>> = ls.iter().rev().map(|&l| (0..l).map(|i| (i % 251) as u8).collect()).collect();
                            let scored = |v: &[Vec<u8>]| v.iter().map(|b| ScoredToken::new(b.clone(), -1.0, false)).collect::<Vec<_>>();
                            let m = match way {
                                0 => mk(&v),
                                1 => {
                                    let mut m = Model::default();
                                    m.add_tokens(scored(&v));
                                    m
                                }
                                2 => {
                                    let mut m = mk(&v[..v.len() / 2]);
                                    for t in scored(&v[v.len() / 2..]) {
                                        m = m.clone();
                                        m.add_tokens([t]);
                                    }
                                    m
                                }
                                _ => {
                                    let mut t = Tokenizer::new(mk(&v[..v.len() / 3]), Vec::<ProcessorWrapper>::new(), ["<s>"]);
                                    t.add_base_tokens(scored(&v[v.len() / 3..]));
                                    let t: Tokenizer = es(t.to_string().parse())?;
                                    t.into_inner().0
                                }
                            };
                            let mut buf = vec![];
                            let max = ls[ls.len() - 1];
                            let mut n = 0;
                            for extra in [0usize, 1, 5] {
                                for &l in ls.iter().chain([max + extra].iter()) {
                                    for d in [0usize, 1] {
                                        let t: Vec<u8> = (0..l.saturating_sub(d)).map(|i| (i % 251) as u8).collect();
                                        let got: Vec<(u32, usize)> = m.common_prefix_search(&t, &mut buf).map(|(i, l)| (i, l as usize)).collect();
                                        if got != expect(&v, &t) {
                                            return Err(format!("text of {} bytes: {:?}", t.len(), got));
                                        }
                                        n += 1;
                                    }
                                }
                            }
                            Ok(n)
                        })
                        .unwrap()
                        .join()
                        .map_err(|_| "panicked".to_string())??;
                    h.traces += n;
                    h.trans += n;
                    h.state(&("C", top, every, way));
                    Ok(())
                },
            );
        }
    }
    // D: full fan-out: all 256 single bytes, all 65536 two-byte tokens
    h.case(
        || "all single bytes and all pairs of bytes as tokens".into(),
        |h| {
            let mut v: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
            for a in 0..=255u8 {
                for b in 0..=255u8 {
                    v.push(vec![a, b]);
                }
            }
            let m = mk(&v);
            let mut buf = vec![];
            for a in 0..=255u8 {
                for b in 0..=255u8 {
                    let got: Vec<(u32, usize)> = m.common_prefix_search(&[a, b, a], &mut buf).map(|(i, l)| (i, l as usize)).collect();
                    let want = vec![(a as u32, 1), (256 + a as u32 * 256 + b as u32, 2)];
                    h.traces += 1;
                    h.trans += 1;
                    if got != want {
                        return Err(format!("prefixes of [{}, {}, {}]: {:?}, expected {:?}", a, b, a, got, want));
                    }
                }
            }
            h.state(&"D");
            Ok(())
        },
    );
    // E: insertion order with many siblings: permutations of the branch order
    for first in 0..=255u8 {
        h.case(
            || format!("256 siblings below one node, inserted starting from {} in both directions", first),
            |h| {
                for dir in [1u8, 255, 7, 101] {
                    let mut v: Vec<Vec<u8>> = vec![];
                    let mut b = first;
                    for _ in 0..256 {
                        v.push(vec![b'k', b]);
                        b = b.wrapping_add(dir);
                    }
                    let m = mk(&v);
                    let mut buf = vec![];
                    for b in 0..=255u8 {
                        check(h, &m, &v, &[b'k', b, 0], &mut buf)?;
                    }
                }
                h.state(&("E", first));
                Ok(())
            },
        );
    }
    // F: models that went through the other constructors
    h.case(
        || "search after clone, reload and tokenizer round trips".into(),
        |h| {
            let v: Vec<Vec<u8>> = pool3.clone();
            let tk = Tokenizer::new(mk(&v[..20]), Vec::<ProcessorWrapper>::new(), ["<s>"]);
            let mut t2 = tk.clone();
            t2.add_base_tokens(v[20..].iter().map(|b| ScoredToken::new(b.clone(), -1.0, false)));
            let t3: Tokenizer = es(t2.to_string().parse())?;
            let mut buf = vec![];
            for t in &texts {
                check(h, tk.model(), &v[..20], t, &mut buf)?;
                check(h, t2.model(), &v, t, &mut buf)?;
                check(h, t3.model(), &v, t, &mut buf)?;
            }
            h.state(&"F");
            Ok(())
        },
    );
    // G: many tokens, ids past 16 bits, nodes past 16 bits
    for (n, way) in [(70_000usize, 0), (70_000, 1), (140_000, 0), (300_000, 1)] {
        h.case(
            || format!("{} numbered tokens and their prefixes, {}", n, if way == 0 { "at construction" } else { "added later" }),
            |h| {
                let name = |i: usize| format!("{:05x}", i.wrapping_mul(0x9e37) % 0x100000).into_bytes();
                let mut ids: std::collections::HashMap<Vec<u8>, u32> = Default::default();
                let mut v: Vec<Vec<u8>> = vec![];
                for i in 0..n {
                    for l in [5, 3, 4, 1] {
                        let t = name(i)[..l].to_vec();
                        if !ids.contains_key(&t) {
                            ids.insert(t.clone(), v.len() as u32);
                            v.push(t);
                        }
                    }
                }
                let m = if way == 0 {
                    mk(&v)
                } else {
                    let mut m = mk(&v[..v.len() / 2]);
                    m.add_tokens(v[v.len() / 2..].iter().map(|b| ScoredToken::new(b.clone(), -1.0, false)));
                    m.clone()
                };
                let mut buf = vec![];
                for i in 0..n {
                    let mut t = name(i);
                    t.push(b'q');
                    let got: Vec<(u32, usize)> = m.common_prefix_search(&t, &mut buf).map(|(i, l)| (i, l as usize)).collect();
                    let want: Vec<(u32, usize)> = (1..=t.len()).filter_map(|l| ids.get(&t[..l]).map(|&i| (i, l))).collect();
                    if got != want {
                        return Err(format!("prefixes of {:?}: {:?}, expected {:?}", String::from_utf8_lossy(&t), got, want));
                    }
                }
                h.traces += n as u64;
                h.trans += n as u64;
                h.state(&("G", n, way));
                Ok(())
            },
        );
    }
}
