//! C01: decode(encode(text)) == processed text.
use crate::util::*;

fn expect(ps: &[&str], specials: &[String], text: &str) -> String {
    oracle::split(text, specials)
        .iter()
        .map(|p| match p {
            oracle::Piece::Special(k) => specials[*k].clone(),
            oracle::Piece::Text(s) => process(ps, s),
        })
        .collect()
}

fn round(h: &mut H, tk: &Tokenizer, ps: &[&str], specials: &[String], text: &str, dropout: f64) -> std::result::Result<(), String> {
    h.traces += 1;
    h.trans += 2;
    let ids = es(tk.encode(text, dropout)).map_err(|e| format!("encode({:?}, {}) failed: {}", text, dropout, e))?;
    let back = es(tk.decode(&ids, true)).map_err(|e| format!("decode({:?}) failed: {}", ids, e))?;
    let want = expect(ps, specials, text);
    if back != want {
        return Err(format!("text {:?} dropout {} -> ids {:?} -> {:?}, expected {:?}", text, dropout, ids, back, want));
    }
    let ids = es(tk.encode_ordinary(text, dropout)).map_err(|e| format!("encode_ordinary({:?}) failed: {}", text, e))?;
    let back = es(tk.decode(&ids, true)).map_err(|e| format!("decode({:?}) failed: {}", ids, e))?;
    let want = process(ps, text);
    if back != want {
        return Err(format!("ordinary: text {:?} dropout {} -> ids {:?} -> {:?}, expected {:?}", text, dropout, ids, back, want));
    }
    Ok(())
}

fn half() -> vx::Rng {
    vx::Rng::Choices(vec![1 << 62, 3 << 62])
}

fn rounds_all_draws(h: &mut H, tk: &Tokenizer, ps: &[&str], specials: &[String], text: &str, cap: u64) -> std::result::Result<(), String> {
    let cfg = vx::Config { sched: false, rng: half(), max_execs: cap, ..Default::default() };
    let mut bad = None;
    let st = vx::explore(
        &cfg,
        || {
            let ids = es(tk.encode(text, 0.5))?;
            es(tk.decode(&ids, true)).map(|b| (ids, b))
        },
        |o, tr| match o {
            vx::Outcome::Ok(Ok((ids, b))) => {
                let want = expect(ps, specials, text);
                if b != want {
                    bad = Some(format!("text {:?} draws {} -> ids {:?} -> {:?}, expected {:?}", text, vx::enc(tr), ids, b, want));
                }
                bad.is_none()
            }
            vx::Outcome::Ok(Err(e)) => {
                bad = Some(format!("text {:?} draws {}: {}", text, vx::enc(tr), e));
                false
            }
            vx::Outcome::Panic(p) => {
                bad = Some(format!("text {:?} draws {}: panic {}", text, vx::enc(tr), p));
                false
            }
            _ => unreachable!(),
        },
    );
    h.traces += st.execs;
    h.trans += st.choice_points;
    h.count("dropout_outcomes", st.execs);
    if !st.complete && bad.is_none() {
        h.count("dropout_trees_capped", 1);
    }
    bad.map_or(Ok(()), Err)
}

pub fn run(h: &mut H) {
    let multi: Vec<Vec<u8>> = vec![
        b"ab".to_vec(),
        b"ba".to_vec(),
        b"\r\n".to_vec(),
        "é".as_bytes().to_vec(),
        vec![0xa9, b'a'],
        vec![b'a', 0xc3],
        b"<s>".to_vec(),
        b"<e".to_vec(),
        "e\u{301}".as_bytes().to_vec(),
        vec![0x98, 0x80],
    ];
    let specials: Vec<Vec<String>> = vec![
        strs(&[]),
        strs(&["<s>"]),
        strs(&["<s", "<s>"]),
        strs(&["<e>", "<s>", "é"]),
        strs(&["a", "\r\n", "\u{301}"]),
        strs(&["", "<s>"]),
        strs(&["a\"b\\", "\n"]),
    ];
    let plists: Vec<Vec<&str>> = vec![
        vec![],
        vec!["crlf"],
        vec!["nfc"],
        vec!["nfd", "crlf"],
        vec!["crlf", "nfkc"],
        vec!["nfkd", "nfc"],
    ];
    let pieces = ["a", "b", "é", "€", "😀", "\r\n", "\r", "\n", "<s>", "<e>", "<s", "e\u{301}", "\u{fb01}", "\0", " ", "\u{212b}"];
    let short = strings(&pieces, 0, h.pick(2, 3));
    let nsub = 1usize << multi.len();
    // family A: every subset of the multi-byte pool x specials x processors x short texts
    let subs: Vec<usize> = if h.quick() { (0..nsub).filter(|s| s.count_ones() <= 2 || s.count_ones() >= 9 || s % 29 == 5).collect() } else { (0..nsub).filter(|s| s.count_ones() <= 4 || s % 7 == 5).collect() };
    for sub in subs {
        for sp in &specials {
            for ps in &plists {
                let mk = || {
                    let mut v = bytes_vocab();
                    for (i, m) in multi.iter().enumerate() {
                        if sub >> i & 1 == 1 {
                            v.push(oracle::t(m, dyadic(i)));
                        }
                    }
                    v
                };
                h.case(
                    || format!("vocabulary: 256 bytes + subset {:#x} of {:?}, specials {:?}, processors {:?}, all texts of at most {} pieces of {:?}", sub, multi, sp, ps, if short.len() > 1000 { 3 } else { 2 }, pieces),
                    |h| {
                        let v = mk();
                        let tk = tokenizer(&v, ps, sp);
                        h.state(&(sub, sp, ps));
                        for text in &short {
                            round(h, &tk, ps, sp, text, 0.0)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // family B: all longer texts on a few rich configurations, with dropout trees
    let long = strings(&pieces, 3, h.pick(3, 4));
    for (ci, (sub, sp, ps)) in [
        (0x3ffusize, 3usize, 0usize),
        (0x3ff, 2, 1),
        (0x2d5, 1, 2),
        (0x3ff, 4, 3),
        (0x12a, 6, 5),
        (0x3ff, 5, 4),
    ]
    .into_iter()
    .enumerate()
    {
        let mut v = bytes_vocab();
        for (i, m) in multi.iter().enumerate() {
            if sub >> i & 1 == 1 {
                v.push(oracle::t(m, dyadic(i)));
            }
        }
        let sp = &specials[sp];
        let ps = &plists[ps];
        let tk = tokenizer(&v, ps, sp);
        for chunk in long.chunks(64) {
            h.case(
                || format!("configuration {} (subset {:#x}, specials {:?}, processors {:?}), texts {:?}..., dropout 0, 1 and every outcome of the draws at 0.5", ci, sub, sp, ps, chunk[0]),
                |h| {
                    for text in chunk {
                        h.state(&(ci, text));
                        round(h, &tk, ps, sp, text, 0.0)?;
                        round(h, &tk, ps, sp, text, 1.0)?;
                        rounds_all_draws(h, &tk, ps, sp, text, 256)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // family C: every Unicode scalar value
    let v = {
        let mut v = bytes_vocab();
        v.push(oracle::t("é".as_bytes(), -1.0));
        v.push(oracle::t(&[0x80, 0x80], -1.0));
        v.push(oracle::t(&[0xf0, 0x9f], -1.0));
        v.push(oracle::t(&[b'x', 0xe4], -1.0));
        v
    };
    for ps in [vec![], vec!["crlf"], vec!["nfc"], vec!["nfkd"]] {
        let tk = tokenizer(&v, &ps, &strs(&["<s>"]));
        for blk in 0..0x110u32 {
            h.case(
                || format!("every scalar value U+{:04X}00..U+{:04X}FF.. between 'x' and '<s>', processors {:?}", blk << 4, (blk << 4) + 0xf, ps),
                |h| {
                    for c in (blk << 12)..((blk + 1) << 12) {
                        if let Some(c) = char::from_u32(c) {
                            h.trans += 1;
                            let s = format!("x{}<s>{}", c, c);
                            round(h, &tk, &ps, &strs(&["<s>"]), &s, 0.0)?;
                        }
                    }
                    h.state(&(blk, &ps));
                    Ok(())
                },
            );
        }
    }
    // family D: sizes
    let sizes: &[usize] = &[127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100_000, 262_144, 300_001];
    for &n in sizes {
        for (name, unit) in [("a", "a"), ("ab", "ab"), ("é", "é"), ("mixed", "ab<s>é😀\r\nx"), ("special", "<s>")] {
            for ps in [vec![], vec!["crlf", "nfc"]] {
                let mut v = bytes_vocab();
                for (i, m) in multi.iter().enumerate() {
                    v.push(oracle::t(m, dyadic(i)));
                }
                v.push(oracle::t("ab".repeat(150).as_bytes(), -1.0));
                let sp = strs(&["<s>"]);
                h.case(
                    || format!("{:?} repeated to {} bytes, processors {:?}", name, n, ps),
                    |h| {
                        let tk = tokenizer(&v, &ps, &sp);
                        let mut s = unit.repeat(n / unit.len());
                        while s.len() < n {
                            s.push('b');
                        }
                        h.state(&(n, name, &ps));
                        // the special splitter is quadratic on long plain text only in the number of specials
                        for p in [0.0, 1.0] {
                            let ids = es(tk.encode(&s, p))?;
                            let back = es(tk.decode(&ids, true))?;
                            h.traces += 1;
                            h.trans += 2;
                            if back != expect(&ps, &sp, &s) {
                                return Err(format!("round trip of {} bytes differs", s.len()));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
