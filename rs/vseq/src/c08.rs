//! C08: decoding is total.
use crate::util::*;

pub fn run(h: &mut H) {
    let base: Vec<Vec<u8>> = vec![
        b"a".to_vec(),
        vec![0xc3],
        vec![0xa9],
        "é".as_bytes().to_vec(),
        vec![0xe2, 0x82],
        vec![0xac],
        vec![0xf0, 0x9f],
        vec![0x98, 0x80],
        vec![0xff],
        vec![],
        b"<s>".to_vec(),
        vec![0xa9, b'b', 0xf0],
        b"\r\n".to_vec(),
    ];
    let splists: Vec<Vec<String>> = vec![strs(&[]), strs(&["<s>"]), strs(&["<s>", "é"]), strs(&["", "\u{301}", "\r\n"])];
    let plists: Vec<Vec<&str>> = vec![vec![], vec!["crlf"], vec!["nfd", "crlf"], vec!["nfkc"]];
    for sp in &splists {
        for ps in &plists {
            for (bi, b) in [&base[..], &base[..3], &base[..0]].into_iter().enumerate() {
                let n = b.len() as u32;
                let mut ids: Vec<u32> = (0..n + sp.len() as u32).collect();
                let oob = [n + sp.len() as u32, n + sp.len() as u32 + 1, 65536 + n, u32::MAX - n, u32::MAX];
                ids.extend(oob);
                let depth = if ids.len() > 18 { h.pick(3, 4) } else { h.pick(4, 5) };
                for &first in &ids {
                    h.case(
                        || format!("{} base tokens, specials {:?}, processors {:?}, all id sequences of at most {} ids out of {:?} that start with {}", n, sp, ps, depth, ids, first),
                        |h| {
                            let tk = Tokenizer::new(
                                Model::from(b.iter().enumerate().map(|(i, x)| ScoredToken::new(x.clone(), dyadic(i), false)).collect::<Vec<_>>()),
                                procs(ps),
                                sp.iter().map(|s| s.as_str()),
                            );
                            let bb: Vec<Vec<u8>> = b.to_vec();
                            for (k, rest) in seqs(&ids, 0, depth - 1).into_iter().enumerate() {
                                let mut s = vec![first];
                                s.extend(rest);
                                if k == 0 {
                                    s.truncate(if first == 0 { 0 } else { 1 });
                                }
                                if k % 32 == 0 {
                                    h.state(&(bi, sp, ps, &s));
                                }
                                for inc in [true, false] {
                                    h.traces += 1;
                                    h.trans += s.len() as u64;
                                    let got = catch(|| tk.decode(&s, inc)).map_err(|e| format!("decode({:?}, {}): {}", s, inc, e))?;
                                    let want = oracle::decode(&bb, sp, &s, inc);
                                    match (got, want) {
                                        (Ok(g), Ok(w)) if g == w => {}
                                        (Err(e), Err(bad)) => {
                                            let m = e.to_string();
                                            let named = match e {
                                                Error::TokenIdOutOfBounds(i) => bad.contains(&i),
                                                _ => false,
                                            } || bad.iter().any(|i| m.split(|c: char| !c.is_ascii_digit()).any(|w| w == i.to_string()));
                                            if !named {
                                                return Err(format!("decode({:?}, {}) reports {:?}, which names none of the unknown ids {:?}", s, inc, m, bad));
                                            }
                                        }
                                        (g, w) => return Err(format!("decode({:?}, {}) = {:?}, expected {:?}", s, inc, g.map_err(|e| e.to_string()), w)),
                                    }
                                }
                                if k % 257 == 0 {
                                    // the model-level decode, which knows base ids only
                                    let got = catch(|| tk.model().decode(&s)).map_err(|e| format!("model decode({:?}): {}", s, e))?;
                                    let want = oracle::decode(&bb, &[], &s, true);
                                    match (got, want) {
                                        (Ok(g), Ok(w)) if g == w => {}
                                        (Err(_), Err(_)) => {}
                                        (g, w) => return Err(format!("model decode({:?}) = {:?}, expected {:?}", s, g.map_err(|e| e.to_string()), w)),
                                    }
                                    let got = catch(|| tk.decode_batch(vec![s.clone(), s.clone()], true))?.map_err(|e| e.to_string());
                                    let want = oracle::decode(&bb, sp, &s, true);
                                    if got.is_ok() != want.is_ok() || (want.is_ok() && got.clone().unwrap() != vec![want.clone().unwrap(); 2]) {
                                        return Err(format!("decode_batch of {:?} twice = {:?}, expected {:?}", s, got, want));
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // every way of cutting every multi-byte character into tokens: all two- and
    // three-byte sequences around the UTF-8 boundaries, as single-byte tokens
    let edge: Vec<u8> = vec![0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
    let all: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    for &a in &edge {
        h.case(
            || format!("all byte sequences of at most 4 starting with {:#04x} out of {:02x?}, with a special token at each place", a, edge),
            |h| {
                let sp = strs(&["<s>"]);
                let tk = Tokenizer::new(Model::from(all.iter().map(|b| ScoredToken::new(b.clone(), -1.0, true)).collect::<Vec<_>>()), procs(&[]), ["<s>"]);
                for rest in seqs(&edge, 0, h.pick(2, 3)) {
                    let mut s: Vec<u32> = vec![a as u32];
                    s.extend(rest.iter().map(|&b| b as u32));
                    for cut in 0..=s.len() {
                        let mut t = s.clone();
                        t.insert(cut, 256);
                        for (x, inc) in [(&s, true), (&t, true), (&t, false)] {
                            h.traces += 1;
                            h.trans += x.len() as u64;
                            let got = es(tk.decode(x, inc))?;
                            let want = oracle::decode(&all, &sp, x, inc).unwrap();
                            if got != want {
                                return Err(format!("decode({:?}, {}) = {:?}, expected {:?}", x, inc, got, want));
                            }
                        }
                    }
                    h.state(&s);
                }
                Ok(())
            },
        );
    }
    // long sequences, an unknown id at every place of interest
    for n in [255usize, 256, 257, 1023, 1024, 1025, 4096, 65536, 100_000] {
        h.case(
            || format!("{} ids, valid and with one unknown id first, in the middle, last, before and after a special token", n),
            |h| {
                let sp = strs(&["<s>", "<e>"]);
                let tk = Tokenizer::new(Model::from(base.iter().map(|b| ScoredToken::new(b.clone(), -1.0, true)).collect::<Vec<_>>()), procs(&["crlf"]), sp.clone());
                let ids: Vec<u32> = (0..n).map(|i| (i * 7 % 15) as u32).collect();
                for inc in [true, false] {
                    let got = es(tk.decode(&ids, inc))?;
                    if got != oracle::decode(&base, &sp, &ids, inc).unwrap() {
                        return Err(format!("{} valid ids decode to something else", n));
                    }
                    for at in [0, 1, n / 2, n / 2 + 1, n - 2, n - 1] {
                        let mut x = ids.clone();
                        x[at] = 15 + (at % 2) as u32 * 100_000;
                        h.traces += 1;
                        h.trans += 1;
                        match catch(|| tk.decode(&x, inc))? {
                            Err(e) if e.to_string().contains(&x[at].to_string()) => {}
                            r => return Err(format!("{} ids with unknown id {} at {}: {:?}", n, x[at], at, r.map(|s| s.len()).map_err(|e| e.to_string()))),
                        }
                    }
                }
                h.state(&("long", n));
                Ok(())
            },
        );
    }
    // ids past 16 bits, base and special
    for (nb, ns) in [(65_535usize, 3usize), (65_536, 3), (70_000, 70_000), (140_000, 1), (1, 66_000)] {
        h.case(
            || format!("decoding with {} base and {} special tokens", nb, ns),
            |h| {
                let bb: Vec<Vec<u8>> = (0..nb).map(|i| if i % 3 == 0 { format!("{:x}é", i).into_bytes() } else { vec![(i % 256) as u8, (i / 256 % 256) as u8] }).collect();
                let sp: Vec<String> = (0..ns).map(|i| format!("<{}>", i)).collect();
                let tk = Tokenizer::new(Model::from(bb.iter().map(|b| ScoredToken::new(b.clone(), -1.0, true)).collect::<Vec<_>>()), procs(&[]), sp.iter());
                let total = (nb + ns) as u32;
                let mut ids: Vec<u32> = vec![0, 1, 254, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 65_791, 65_792, 131_071, 131_072];
                ids.extend([nb as u32 - 1, nb as u32, total - 1, total, total + 65_536, total + (1 << 17), u32::MAX]);
                ids.sort_unstable();
                ids.dedup();
                for s in seqs(&ids, 1, 2) {
                    for inc in [true, false] {
                        h.traces += 1;
                        h.trans += 1;
                        let got = catch(|| tk.decode(&s, inc))?.map_err(|e| e.to_string());
                        let want = oracle::decode(&bb, &sp, &s, inc);
                        match (&got, &want) {
                            (Ok(g), Ok(w)) if g == w => {}
                            (Err(e), Err(bad)) if bad.iter().any(|i| e.contains(&i.to_string())) => {}
                            _ => return Err(format!("decode({:?}, {}) = {:?}, expected {:?}", s, inc, got, want)),
                        }
                    }
                }
                let all: Vec<u32> = (0..total).chain((0..total).rev()).collect();
                let got = es(tk.decode(&all, true))?;
                if got != oracle::decode(&bb, &sp, &all, true).unwrap() {
                    return Err("all ids up and down decode to something else".into());
                }
                h.state(&("large", nb, ns));
                Ok(())
            },
        );
    }
    // a character cut into tokens far inside a long stretch, for block-wise
    // conversions
    for n in [4093usize, 8189, 16_381, 32_765, 65_533, 131_069, 262_141, 1_048_573] {
        h.case(
            || format!("characters cut into byte tokens around byte {} of a stretch", n),
            |h| {
                let tk = Tokenizer::new(Model::from(all.iter().map(|b| ScoredToken::new(b.clone(), -1.0, true)).collect::<Vec<_>>()), procs(&[]), ["<s>"]);
                for c in ["é", "€", "😀"] {
                    for broken in [false, true] {
                        for off in 0..5usize {
                            let mut ids: Vec<u32> = vec![b'x' as u32; n + off];
                            ids.extend(c.bytes().take(if broken { c.len() - 1 } else { 4 }).map(|b| b as u32));
                            ids.extend([b'y' as u32; 9]);
                            h.traces += 1;
                            h.trans += 1;
                            let raw: Vec<u8> = ids.iter().map(|&i| i as u8).collect();
                            if es(tk.decode(&ids, true))? != String::from_utf8_lossy(&raw) {
                                return Err(format!("{:?}{} after {} bytes is decoded wrongly", c, if broken { " without its last byte" } else { "" }, n + off));
                            }
                        }
                    }
                }
                h.state(&("cut", n));
                Ok(())
            },
        );
    }
    // lists of equal length one after the other in the same memory
    for n in [1usize, 2, 16, 255, 256, 257, 1024, 1025, 4096, 4097, 65_537] {
        h.case(
            || format!("six lists of {} ids one after the other in the same memory, on two tokenizers", n),
            |h| {
                let alt: Vec<Vec<u8>> = all.iter().map(|b| vec![b[0] ^ 1]).collect();
                let sp = strs(&["<s>"]);
                let tks: Vec<(&Vec<Vec<u8>>, Tokenizer)> = [all_ref(&all), &alt].into_iter().map(|b| (b, Tokenizer::new(Model::from(b.iter().map(|b| ScoredToken::new(b.clone(), -1.0, true)).collect::<Vec<_>>()), procs(&[]), ["<s>"]))).collect();
                let mut ids: Vec<u32> = Vec::with_capacity(n);
                for step in 0..24usize {
                    let (k, x, inc) = (step % 6, step / 2 % 2, step / 6 % 2 == 0);
                    ids.clear();
                    ids.extend((0..n).map(|i| if i == n / 2 { 252 + k as u32 } else { [97, 0xc3, 0xa9, 256, 98, 0xe2, 0x82, 0xac][(i + i / 5) % 8] }));
                    h.traces += 1;
                    h.trans += 1;
                    h.state(&("same memory", n, k, x));
                    let (base, tk) = &tks[x];
                    let want = oracle::decode(base, &sp, &ids, inc).ok();
                    let got = tk.decode(&ids, inc).ok();
                    if got != want {
                        return Err(format!("list {} on tokenizer {}, special tokens included {}: wrong (failed: {})", k, x, inc, got.is_none()));
                    }
                }
                Ok(())
            },
        );
    }
}

fn all_ref(v: &Vec<Vec<u8>>) -> &Vec<Vec<u8>> {
    v
}
