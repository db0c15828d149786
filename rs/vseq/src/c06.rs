//! C06: saving and loading.
use crate::util::*;
use std::str::FromStr;

type R = std::result::Result<(), String>;

struct Ref {
    v: Vec<T>,
    ps: Vec<&'static str>,
    sp: Vec<String>,
}

fn proc_name(p: &ProcessorWrapper) -> String {
    match p {
        ProcessorWrapper::Crlf(_) => "crlf".into(),
        ProcessorWrapper::Unicode(u) => match u {
            UnicodeProcessor::Nfc => "nfc",
            UnicodeProcessor::Nfd => "nfd",
            UnicodeProcessor::Nfkc => "nfkc",
            UnicodeProcessor::Nfkd => "nfkd",
        }
        .into(),
    }
}

/// Is `tk` exactly the tokenizer `r` (scores: bit for bit, but for the listed finding)?
fn same(h: &mut H, what: &str, tk: &Tokenizer, r: &Ref, loaded: bool) -> R {
    h.traces += 1;
    let v = tk.model().vocab();
    if v.len() != r.v.len() {
        return Err(format!("{}: {} base tokens instead of {}", what, v.len(), r.v.len()));
    }
    for (i, (a, b)) in v.iter().zip(&r.v).enumerate() {
        if a.value != b.b {
            return Err(format!("{}: base token {} is {} instead of {}", what, i, hex(&a.value), hex(&b.b)));
        }
        if a.keep != b.keep {
            return Err(format!("{}: keep mark of base token {} ({}) is {}", what, i, hex(&b.b), a.keep));
        }
        if a.score.to_bits() != b.s.to_bits() {
            let e = format!("{}: score of base token {} ({}) is {:e} instead of {:e}", what, i, hex(&b.b), a.score, b.s);
            // the listed finding: the JSON library reads the printed number one unit off
            let lib: f64 = serde_json::from_str(&serde_json::to_string(&b.s).unwrap()).unwrap();
            let ulp = (a.score.to_bits() as i64).wrapping_sub(b.s.to_bits() as i64).unsigned_abs();
            if loaded && ulp <= 8 && lib.to_bits() == a.score.to_bits() {
                h.known("float-ulp", e);
                continue;
            }
            return Err(e);
        }
    }
    let ps: Vec<String> = tk.processors().iter().map(proc_name).collect();
    if ps != r.ps {
        return Err(format!("{}: processors {:?} instead of {:?}", what, ps, r.ps));
    }
    if tk.special_tokens() != r.sp {
        return Err(format!("{}: special tokens {:?} instead of {:?}", what, tk.special_tokens(), r.sp));
    }
    if tk.vocab_size() != r.v.len() + r.sp.len() {
        return Err(format!("{}: {} tokens in all", what, tk.vocab_size()));
    }
    Ok(())
}

fn file(h: &H, tk: &Tokenizer) -> std::result::Result<(String, Tokenizer), String> {
    let p = format!("{}/tok.json", h.scratch);
    let p = p.as_str();
    tk.save(p).map_err(|e| format!("save failed: {}", e))?;
    let doc = std::fs::read_to_string(p).map_err(|e| format!("the saved file cannot be read: {}", e))?;
    let t = Tokenizer::from_file(p).map_err(|e| format!("the saved file does not load: {}", e))?;
    Ok((doc, t))
}

/// The round trips of one tokenizer, by string and by file, twice each.
fn trip(h: &mut H, tk: &Tokenizer, r: &Ref, texts: &[&str]) -> R {
    same(h, "before saving", tk, r, false)?;
    let exact = |a: &Tokenizer| a.model().vocab().iter().zip(&r.v).all(|(x, y)| x.score.to_bits() == y.s.to_bits());
    let d1 = tk.to_string();
    let t1 = Tokenizer::from_str(&d1).map_err(|e| format!("the document does not load: {}", e))?;
    same(h, "loaded from a string", &t1, r, true)?;
    if exact(&t1) && t1.to_string() != d1 {
        return Err("serialising the loaded tokenizer gives another document".into());
    }
    let (f1, t2) = file(h, tk)?;
    same(h, "loaded from a file", &t2, r, true)?;
    let (f2, t3) = file(h, &t2)?;
    if exact(&t2) && f1 != f2 {
        return Err("saving the loaded tokenizer gives another file".into());
    }
    let mut r2 = Ref { v: r.v.clone(), ps: r.ps.clone(), sp: r.sp.clone() };
    for (t, x) in r2.v.iter_mut().zip(t2.model().vocab()) {
        t.s = x.score; // compared with the original above
    }
    same(h, "loaded from the file of a loaded one", &t3, &r2, true)?;
    for x in texts {
        for ord in [false, true] {
            let e = |t: &Tokenizer| es(if ord { t.encode_ordinary(x, 0.0) } else { t.encode(x, 0.0) });
            let (a, b, c) = (e(tk), e(&t1), e(&t3));
            h.trans += 1;
            if a != b || a != c {
                return Err(format!("{:?} encodes to {:?} before and {:?} / {:?} after loading", x, a, b, c));
            }
        }
    }
    Ok(())
}

fn mk(r: &Ref) -> Tokenizer {
    tokenizer(&r.v, &r.ps, &r.sp)
}

fn tv(bs: impl IntoIterator<Item = Vec<u8>>) -> Vec<T> {
    bs.into_iter().enumerate().map(|(i, b)| T { b, s: dyadic(i), keep: i % 3 == 1 }).collect()
}

pub fn run(h: &mut H) {
    let nasty = [
        "", " ", "\"", "\\", "\\\\", "\\\"", "\\n", "\\u0000", "\n", "\r\n", "\t", "\u{0}", "\u{1f}", "\u{7f}", "/", "\u{2028}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10ffff}", "\u{d7ff}", "\u{e000}",
        "é", "e\u{301}", "😀", "true", "null", "{}", "[", "encoded", "AA", "AA==", "/w", "//8", "gICA", "<s>", "</s>", "a", "aa",
    ];
    // A: all byte strings of length 1 and 2 as base tokens; every Unicode scalar; pieces of long ones
    for hi in 0..=256usize {
        h.case(
            || format!("base tokens: all of length 2 starting with byte {:#x} (256: all of length 1)", hi),
            |h| {
                let v = if hi == 256 { tv((0..=255u8).map(|b| vec![b])) } else { tv((0..=255u8).map(|b| vec![hi as u8, b])) };
                let r = Ref { v, ps: vec![], sp: vec![] };
                for i in 0..256 {
                    h.state(&("A", hi, i));
                }
                trip(h, &mk(&r), &r, &["a", "ab"])
            },
        );
    }
    for chunk in 0..(0x110000 / 0x1000) {
        h.case(
            || format!("every scalar from {:#x} to {:#x} as a base token, alone, cut short and as a special token", chunk * 0x1000, chunk * 0x1000 + 0xfff),
            |h| {
                let cs: Vec<char> = (chunk * 0x1000..chunk * 0x1000 + 0x1000u32).filter_map(char::from_u32).collect();
                if h.quick() && chunk > 16 && chunk % 16 != 0 && chunk != 0x10f {
                    return Ok(());
                }
                let mut bs: Vec<Vec<u8>> = cs.iter().map(|c| c.to_string().into_bytes()).collect();
                let cut: Vec<Vec<u8>> = bs.iter().filter(|b| b.len() > 1).map(|b| b[..b.len() - 1].to_vec()).collect();
                let mut seen = std::collections::HashSet::new();
                bs.extend(cut.into_iter().filter(|b| seen.insert(b.clone())));
                let sp: Vec<String> = cs.iter().map(|c| c.to_string()).collect();
                h.state(&("A2", chunk));
                let r = Ref { v: tv(bs), ps: vec![], sp: sp.clone() };
                let first = sp.first().cloned().unwrap_or_default();
                trip(h, &mk(&r), &r, &[&first])
            },
        );
    }
    for len in h.pick(3..6usize, 3..7usize) {
        h.case(
            || format!("base tokens of length {}: valid and invalid UTF-8 in every position", len),
            |h| {
                let letters: [u8; 6] = [b'a', 0x80, 0xc3, 0xff, b'"', 0];
                for part in seqs(&letters, len, len).chunks(400) {
                    let r = Ref { v: tv(part.to_vec()), ps: vec![], sp: vec![] };
                    h.state(&("A3", &part[0]));
                    trip(h, &mk(&r), &r, &[])?;
                }
                Ok(())
            },
        );
    }
    // B: awkward strings as base and special tokens, every ordered pair of them, one keep mark
    for (i, a) in nasty.iter().enumerate() {
        h.case(
            || format!("base and special tokens {:?} with every other awkward string", a),
            |h| {
                for (j, b) in nasty.iter().enumerate() {
                    let mut v: Vec<T> = vec![oracle::t(a.as_bytes(), -1.0)];
                    if i != j {
                        v.push(oracle::t(b.as_bytes(), -2.5));
                    }
                    v[0].keep = j % 2 == 0;
                    let mut sp = vec![a.to_string()];
                    if i != j {
                        sp.push(b.to_string());
                    }
                    h.state(&("B", i, j));
                    let r = Ref { v, ps: vec![PROCS[j % 5]], sp };
                    trip(h, &mk(&r), &r, &[a, b, &format!("{}{}", b, a), &format!("{}x{}", a, b)])?;
                }
                Ok(())
            },
        );
    }
    // C: processor lists x special lists x keep marks
    let plists = seqs(&PROCS, 0, h.pick(3, 4));
    let slists = arrangements(&["<a>", "\n", "é", ""], h.pick(3, 4));
    for ps in &plists {
        h.case(
            || format!("processors {:?}, every list of special tokens, every set of keep marks", ps),
            |h| {
                for sl in &slists {
                    for keep in 0..8 {
                        let mut v = bytes_vocab()[..128].to_vec();
                        v.insert(0, oracle::t("é".as_bytes(), -1.0));
                        v.insert(64, oracle::t(b"ab", -1.25));
                        v.push(oracle::t(b"\n\n", -3.0));
                        for (k, i) in [0, 64, 130].iter().enumerate() {
                            v[*i].keep = keep >> k & 1 == 1;
                        }
                        h.state(&("C", ps, sl, keep));
                        let r = Ref { v, ps: ps.clone(), sp: strs(sl) };
                        trip(h, &mk(&r), &r, &["ab<a>\r\nab\n\n", "e\u{301}a"])?;
                    }
                }
                Ok(())
            },
        );
    }
    // D: scores: exponents x mantissas x signs, and short decimal numbers
    for e in 0..2047u64 {
        if h.quick() && e % 8 != 3 && !(1000..1050).contains(&e) && e != 0 && e != 2046 {
            continue;
        }
        h.case(
            || format!("scores with binary exponent {}: 60 mantissas, both signs", e),
            |h| {
                let mut ms = vec![0u64, 1, 2, 3, (1 << 52) - 1, (1 << 52) - 2, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x8000000000000, 0x123456789abcd];
                ms.extend((0..50).map(|k| (1u64 << k) * 3 % (1 << 52)));
                let v: Vec<T> = ms
                    .iter()
                    .flat_map(|m| [0u64, 1 << 63].map(|s| f64::from_bits(s | e << 52 | m)))
                    .enumerate()
                    .map(|(i, s)| T { b: format!("t{}", i).into_bytes(), s, keep: i % 7 == 0 })
                    .collect();
                h.state(&("D", e));
                let r = Ref { v, ps: vec![], sp: vec![] };
                trip(h, &mk(&r), &r, &[])
            },
        );
    }
    for k in 0..h.pick(200, 2000) {
        h.case(
            || format!("scores -{}.000 to -{}.999", k, k),
            |h| {
                let v: Vec<T> = (0..1000).map(|i| T { b: format!("t{}", i).into_bytes(), s: format!("-{}.{:03}", k, i).parse().unwrap(), keep: false }).collect();
                h.state(&("D2", k));
                let r = Ref { v, ps: vec![], sp: vec![] };
                trip(h, &mk(&r), &r, &[])
            },
        );
    }
    // E: histories of saving, loading, cloning and adding
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Str,
        File,
        Clone,
        Base(&'static [u8]),
        Special(&'static str),
    }
    let ops = [Op::Str, Op::File, Op::Clone, Op::Base(b"ab"), Op::Base(&[0xff, 0xfe]), Op::Special("<s>"), Op::Special("\n"), Op::Special("<s>\u{e9}")];
    let depth = h.pick(4, 5);
    for (first, watch) in seqs(&ops, 2, 2).into_iter().flat_map(|f| [(f.clone(), false), (f, true)]) {
        h.case(
            || format!("histories of at most {} operations starting with {:?}{}", depth, first, if watch { ", saved, loaded and used after each" } else { "" }),
            |h| {
                for rest in seqs(&ops, 0, if watch { depth - 3 } else { depth - 2 }) {
                    let mut r = Ref { v: bytes_vocab()[..128].to_vec(), ps: vec!["crlf"], sp: vec!["<pad>".into()] };
                    let mut tk = mk(&r);
                    let mut nb = 0;
                    for op in first.iter().chain(&rest) {
                        h.trans += 1;
                        match op {
                            Op::Str => tk = es(Tokenizer::from_str(&tk.to_string()))?,
                            Op::File => tk = file(h, &tk)?.1,
                            Op::Clone => tk = tk.clone(),
                            Op::Base(b) => {
                                let mut b = b.to_vec();
                                b.extend(vec![b'!'; nb]);
                                nb += 1;
                                let t = T { b, s: -1.5 - nb as f64, keep: nb % 2 == 0 };
                                tk.add_base_tokens(toks(&[t.clone()]));
                                r.v.push(t);
                            }
                            Op::Special(s) => {
                                tk.add_special_tokens([s]);
                                if !r.sp.iter().any(|x| x == s) {
                                    r.sp.push(s.to_string());
                                }
                            }
                        }
                        if watch {
                            // the same object goes on being used
                            same(h, "during the history", &tk, &r, false)?;
                            let t2 = es(Tokenizer::from_str(&tk.to_string()))?;
                            same(h, "loaded from a string during the history", &t2, &r, true)?;
                            let t2 = file(h, &tk)?.1;
                            same(h, "loaded from a file during the history", &t2, &r, true)?;
                            let _ = es(tk.encode("ab!<s>\n", 0.0))?;
                            let _ = es(tk.encode_ordinary("ab!<s>\n", 0.0))?;
                        }
                    }
                    h.state(&("E", format!("{:?}{:?}", first, rest)));
                    same(h, "after the history", &tk, &r, false)?;
                    let x = "ab!<s>\u{e9}\n<pad>\r\n";
                    let (got, fresh) = (es(tk.encode(x, 0.0)), es(mk(&r).encode(x, 0.0)));
                    if got != fresh {
                        return Err(format!("{:?} encodes to {:?} after the history {:?}{:?} and to {:?} with a tokenizer built at once", x, got, first, rest, fresh));
                    }
                    let t2 = es(Tokenizer::from_str(&tk.to_string()))?;
                    same(h, "loaded after the history", &t2, &r, true)?;
                }
                Ok(())
            },
        );
    }
    // F: sizes
    for (nb, ns) in [(0, 0), (1, 0), (0, 1), (256, 300), (1000, 1000), (h.pick(20000, 200000), 10), (300, h.pick(3000, 20000))] {
        h.case(
            || format!("{} base tokens and {} special tokens", nb, ns),
            |h| {
                let v = tv((0..nb).map(|i| format!("{}tok{}", ["", " ", "\n", "é"][i % 4], i).into_bytes()));
                let sp: Vec<String> = (0..ns).map(|i| format!("<{}>", (i * 7919) % 100003)).collect();
                h.state(&("F", nb, ns));
                let r = Ref { v, ps: vec!["nfc", "crlf", "nfc"], sp };
                trip(h, &mk(&r), &r, &["<0><7919>", "tok5<15838>"])
            },
        );
    }
    for len in (2..70).chain([100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 70000, 300000, 1000000]) {
        h.case(
            || format!("a base token and a special token of {} bytes", len),
            |h| {
                let v = vec![oracle::t(&vec![b'x'; 1], -1.0), T { b: (0..len).map(|i| b"ab\"\\\n"[i % 5]).collect(), s: -2.0, keep: true }, oracle::t(&(0..len).map(|i| (i % 256) as u8).collect::<Vec<_>>(), -3.0)];
                let sp = vec!["é".repeat(len / 2)];
                h.state(&("G", len));
                std::thread::scope(|s| {
                    std::thread::Builder::new()
                        .stack_size(2 << 20) // that of a worker thread
                        
                        .spawn_scoped(s, || {
                            let r = Ref { v, ps: vec![], sp };
                            trip(h, &mk(&r), &r, &["x"])
                        })
                        .unwrap()
                        .join()
                        .unwrap_or_else(|_| Err("panicked".into()))
                })
            },
        );
    }
}
