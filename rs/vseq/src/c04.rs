//! C04: special tokens.
use crate::util::*;

fn base() -> Vec<T> {
    let mut v = bytes_vocab();
    for (i, s) in ["ab", "<s>", "s>", "e\u{301}", "é", "aa", "b<"].iter().enumerate() {
        v.push(oracle::t(s.as_bytes(), dyadic(i)));
    }
    v
}

fn all_ways(h: &mut H, v: &[T], ps: &[&str], sp: &[String], tk: &Tokenizer, text: &str, batch: bool) -> std::result::Result<(), String> {
    h.traces += 1;
    h.trans += 2;
    let r = es(tk.encode(text, 0.0));
    check_full_encode(v, ps, sp, text, &r).map_err(|e| format!("specials {:?}, text {:?}: {}", sp, text, e))?;
    let r = es(tk.encode_ordinary(text, 0.0))?;
    check_full_encode(v, ps, &[], text, &Ok(r)).map_err(|e| format!("ordinary mode, specials {:?}, text {:?}: {}", sp, text, e))?;
    if batch {
        let r = es(tk.encode_batch(vec![text], 0.0)).map(|mut r| r.pop().unwrap_or_default());
        check_full_encode(v, ps, sp, text, &r).map_err(|e| format!("batch, specials {:?}, text {:?}: {}", sp, text, e))?;
        let r = es(tk.encode_ordinary_batch(vec![text], 0.0)).map(|mut r| r.pop().unwrap_or_default());
        check_full_encode(v, ps, &[], text, &r).map_err(|e| format!("ordinary batch, specials {:?}, text {:?}: {}", sp, text, e))?;
    }
    // at full dropout the specials are still found
    let r = es(tk.encode(text, 1.0))?;
    let singles: Vec<T> = v.iter().map(|t| if t.b.len() == 1 { t.clone() } else { oracle::t(&[], 0.0) }).collect();
    check_full_encode(&singles, ps, sp, text, &Ok(r)).map_err(|e| format!("dropout 1, specials {:?}, text {:?}: {}", sp, text, e))?;
    Ok(())
}

pub fn run(h: &mut H) {
    let pool = ["<s>", "<", "s>", "<s", "é", "\u{301}", "a", "ab", "", "<s><s>"];
    let lists: Vec<Vec<String>> = arrangements(&pool, 3).iter().map(|l| strs(l)).collect();
    let letters = ["<", "s", ">", "a", "b", "é", "e\u{301}"];
    let texts = strings(&letters, 0, h.pick(4, 5));
    let plists: Vec<Vec<&str>> = vec![vec![], vec!["nfc"], vec!["nfd", "crlf"]];
    for (li, sp) in lists.iter().enumerate() {
        for (pi, ps) in plists.iter().enumerate() {
            if h.quick() && pi != li % 3 && sp.len() == 3 {
                continue;
            }
            h.case(
                || format!("special tokens {:?}, processors {:?}, all texts of at most {} pieces of {:?}", sp, ps, if texts.len() > 10000 { 5 } else { 4 }, letters),
                |h| {
                    let v = base();
                    let tk = tokenizer(&v, ps, sp);
                    for (i, t) in texts.iter().enumerate() {
                        if i % 16 == 0 {
                            h.state(&(sp, ps, t));
                        }
                        all_ways(h, &v, ps, sp, &tk, t, i % 41 == 0)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // registered in pieces, with repetitions, after encoding
    let pool2 = ["<s>", "<s", "a", "ab", "é"];
    let texts2 = strings(&["<", "s", ">", "a", "b", "é"], 0, 3);
    for first in arrangements(&pool2, 2) {
        for second in seqs(&pool2, 1, 2) {
            h.case(
                || format!("special tokens {:?} given to the constructor, then {:?} added", first, second),
                |h| {
                    let v = base();
                    let mut sp = strs(&first);
                    let mut tk = tokenizer(&v, &[], &sp);
                    for t in texts2.iter().take(40) {
                        all_ways(h, &v, &[], &sp, &tk, t, false)?;
                    }
                    for s in &second {
                        tk.add_special_tokens([s]);
                        if !sp.contains(&s.to_string()) {
                            sp.push(s.to_string());
                        }
                        for t in &texts2 {
                            all_ways(h, &v, &[], &sp, &tk, t, false)?;
                        }
                    }
                    h.state(&("pieces", &sp, second.len()));
                    Ok(())
                },
            );
        }
    }
    // every position of a special token in texts of many sizes
    let sp = strs(&["<|eos|>", "<|pad|>", "é<x>"]);
    for n in [0usize, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 20_000] {
        for unit in ["x", "é", "<", "<|e", "\n", "😀"] {
            h.case(
                || format!("special tokens {:?} before, inside and after {} x {:?}", sp, n, unit),
                |h| {
                    let v = base();
                    let tk = tokenizer(&v, &["nfkc"], &sp);
                    let fill = unit.repeat(n);
                    let texts = [
                        format!("{}<|eos|>{}", fill, fill),
                        format!("<|eos|>{}<|pad|>", fill),
                        format!("{}<|eos|><|pad|>é<x>{}é<x>", fill, fill),
                        format!("{}<|eos|", fill),
                        format!("<|eos|>{}", fill),
                        fill.clone(),
                    ];
                    for t in &texts {
                        h.state(&(n, unit, t));
                        let r = es(tk.encode(t, 0.0));
                        h.traces += 1;
                        h.trans += 1;
                        check_full_encode(&v, &["nfkc"], &sp, t, &r)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // many special tokens; many occurrences
    for n in [16usize, 17, 64, 255, 256, 257, 1000] {
        h.case(
            || format!("{} special tokens, every one of them found", n),
            |h| {
                let v = base();
                let sp: Vec<String> = (0..n).map(|i| format!("<|{}|>", i)).collect();
                let tk = tokenizer(&v, &[], &sp);
                for i in 0..n {
                    let t = format!("a{}b{}", sp[i], sp[n - 1 - i]);
                    h.traces += 1;
                    h.trans += 1;
                    check_full_encode(&v, &[], &sp, &t, &es(tk.encode(&t, 0.0)))?;
                }
                let t = sp.concat();
                check_full_encode(&v, &[], &sp, &t, &es(tk.encode(&t, 0.0)))?;
                h.state(&("many", n));
                Ok(())
            },
        );
    }
    // special tokens of many lengths: complete, one byte short, the wrong last
    // byte, overlapping themselves; alone or as nested prefixes of one another
    let lens: Vec<usize> = [1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 65_535, 65_536, 65_537, 100_000].to_vec();
    let v = bytes_vocab();
    for &l in &lens {
        for unit in ["a", "ab", "<x"] {
            h.case(
                || format!("a special token of {} bytes ({:?} repeated), texts around it", l, unit),
                |h| {
                    let s: String = unit.chars().cycle().take(l).collect();
                    for order in 0..2 {
                        // past 10 kB a short token that does not occur everywhere in the long one
                        let x = if l > 10_000 { "x<q" } else { "x<" };
                        let mut sp = vec![s.clone(), x.to_string(), format!("{}!", s)];
                        if order == 1 {
                            sp.reverse();
                        }
                        let tk = tokenizer(&v, &[], &sp);
                        let short = &s[..l - 1];
                        for t in [s.clone(), short.to_string(), format!("{}{}", short, s), format!("q{}q", s), format!("{}Z{}", short, s), format!("{}{}", s, s), format!("{}{}", s, short), format!("{}!{}!{}", s, short, x)] {
                            let r = es(tk.encode(&t, 0.0));
                            h.traces += 1;
                            h.trans += 1;
                            split_only(&sp, &t, &r)?;
                        }
                    }
                    h.state(&("len", l, unit));
                    Ok(())
                },
            );
        }
    }
    for n in [2usize, 8, 60, 255, 256, 257] {
        for down in [false, true] {
            h.case(
                || format!("{} special tokens, each a prefix of the next, {} first", n, if down { "longest" } else { "shortest" }),
                |h| {
                    let mut sp: Vec<String> = (1..=n).map(|i| format!("<{}", "-".repeat(i))).collect();
                    if down {
                        sp.reverse();
                    }
                    sp.push("<->".into());
                    let tk = tokenizer(&v, &[], &sp);
                    for k in [0, 1, 2, n / 2, n - 1, n, n + 1, 2 * n] {
                        for t in [format!("a<{}b", "-".repeat(k)), format!("<{}><{}>", "-".repeat(k), "-".repeat(k)), format!("<<{}", "-".repeat(k))] {
                            let r = es(tk.encode(&t, 0.0));
                            h.traces += 1;
                            h.trans += 1;
                            split_only(&sp, &t, &r)?;
                        }
                    }
                    h.state(&("nested", n, down));
                    Ok(())
                },
            );
        }
    }
    // ids and list positions past 16 bits
    for (nb, n) in [(0usize, 5000usize), (65_000, 1000), (70_000, 3), (0, 66_000), (140_000, 70_000)] {
        h.case(
            || format!("{} special tokens beside {} base tokens", n, nb + 256),
            |h| {
                let mut v = bytes_vocab();
                v.extend((0..nb).map(|i| oracle::t(format!("{:05x}~", i).as_bytes(), -1.0)));
                let sp: Vec<String> = (0..n).map(|i| format!("<|{}|>", i)).collect();
                let tk = tokenizer(&v, &[], &sp);
                for i in [0, 1, 2, n / 2, n - 2, n - 1].into_iter().chain([255, 256, 4999, 65_535, 65_536].into_iter().filter(|&i| i < n)) {
                    let i = i.min(n - 1);
                    let t = format!("ab{}c{}<|{}", sp[i], sp[n - 1 - i], i);
                    let want: Vec<u32> = [97u32, 98, (v.len() + i) as u32, 99, (v.len() + n - 1 - i) as u32].into_iter().chain(format!("<|{}", i).bytes().map(|b| b as u32)).collect();
                    let r = es(tk.encode(&t, 0.0))?;
                    h.traces += 1;
                    h.trans += 1;
                    if r != want {
                        return Err(format!("{:?} encodes to {:?}, expected {:?}", t, r, want));
                    }
                }
                h.state(&("ids", nb, n));
                Ok(())
            },
        );
    }
    // long texts with special tokens far from the start and close to each other
    for n in [65_535usize, 65_536, 65_537, 131_072, 300_000, 1_000_000] {
        h.case(
            || format!("special tokens in a text of {} bytes", n),
            |h| {
                let sp = strs(&["<|eos|>", "<|", "|>é"]);
                let tk = tokenizer(&v, &[], &sp);
                for (unit, every) in [("x", 1usize << 15), ("<|eos", 977), ("é", 65_536), ("|>", 9), ("<|eos|>", 64)] {
                    let mut t = String::new();
                    let mut k = 0;
                    while t.len() < n {
                        t.push_str(unit);
                        k += 1;
                        if k % every == 0 {
                            t.push_str(["<|eos|>", "|>é", "<|"][k / every % 3]);
                        }
                    }
                    t.push_str("<|eos|>");
                    let r = es(tk.encode(&t, 0.0));
                    h.traces += 1;
                    h.trans += 1;
                    split_only(&sp, &t, &r)?;
                }
                h.state(&("long", n));
                Ok(())
            },
        );
    }
    // every scalar as the only special token, and as the end of one
    for c0 in (0..0x110000u32).step_by(0x2000) {
        h.case(
            || format!("the special tokens c and <c for every scalar from U+{:04X} on", c0),
            |h| {
                let step = if h.quick() && c0 >= 0x3000 { 5 } else { 1 };
                for c in (c0..c0 + 0x2000).step_by(step).filter_map(char::from_u32).filter(|&c| c != '<') {
                    let sp = vec![format!("<{}", c), c.to_string()];
                    let next = char::from_u32(c as u32 ^ 1).unwrap_or('z');
                    let tk = &Tokenizer::new(Model::from(vec![]), Vec::<ProcessorWrapper>::new(), sp.iter());
                    let t = format!("{}<{}{}", c, c, c);
                    let r = es(tk.encode(&t, 0.0));
                    h.traces += 2;
                    h.trans += 2;
                    let want = vec![1, 0, 1];
                    if r != Ok(want.clone()) {
                        return Err(format!("special tokens {:?}: {:?} encodes to {:?}, expected {:?}", sp, t, r, want));
                    }
                    // a neighbour is not recognised: without base tokens it cannot be encoded
                    if next != '<' {
                        let r = es(tk.encode(&format!("{}{}", c, next), 0.0));
                        if r.is_ok() {
                            return Err(format!("special tokens {:?}: {:?} was encoded to {:?} without any base token", sp, format!("{}{}", c, next), r));
                        }
                    }
                }
                h.state(&("scalar", c0));
                Ok(())
            },
        );
    }
    // texts of equal length one after the other in the same memory, on
    // tokenizers with as many special tokens
    for n in [8usize, 16, 64, 255, 256, 257, 1024, 1025, 4096, 4097, 65_537] {
        h.case(
            || format!("eight texts of {} bytes one after the other in the same memory, on four tokenizers", n),
            |h| {
                let v = bytes_vocab();
                let lists = [["<s>", "</s>"], ["</s>", "<s>"], ["<s", "</s>"], ["s>", "<s>"]].map(|l| strs(&l));
                let tks: Vec<Tokenizer> = lists.iter().map(|sp| tokenizer(&v, &[], sp)).collect();
                let mut t = String::with_capacity(n + 8);
                for step in 0..h.pick(32usize, 64) {
                    let (k, x) = (step * 3 % 8, step / 3 % 4);
                    t.clear();
                    while t.len() < if k < 4 { n / 2 } else { n - 7 } {
                        t.push('a');
                    }
                    t.push_str(["<s>aaa", "</s>aa", "aaa<s>", "ababab"][k % 4]);
                    while t.len() < n {
                        t.push('b');
                    }
                    h.state(&("same memory", n, k, x));
                    for way in 0..3 {
                        h.traces += 1;
                        h.trans += 1;
                        let (sp, r) = match way {
                            0 => (&lists[x][..], es(tks[x].encode(&t, 0.0))),
                            1 => (&lists[x][..], es(tks[x].encode_batch(vec![&t], 0.0)).map(|mut r| r.remove(0))),
                            _ => (&[][..], es(tks[x].encode_ordinary(&t, 0.0))),
                        };
                        split_only(sp, &t, &r).map_err(|e| format!("text {}, list {:?}, way {}: {}", k, lists[x], way, e))?;
                    }
                }
                Ok(())
            },
        );
    }
}

/// With single bytes as the only base tokens (id = byte) the result is known
/// in full from the split alone.
fn split_only(sp: &[String], t: &str, r: &std::result::Result<Vec<u32>, String>) -> std::result::Result<(), String> {
    let mut want: Vec<u32> = vec![];
    for p in oracle::split(t, sp) {
        match p {
            oracle::Piece::Special(k) => want.push(256 + k as u32),
            oracle::Piece::Text(s) => want.extend(s.bytes().map(|b| b as u32)),
        }
    }
    let cut = |s: &str| s.chars().take(60).collect::<String>();
    match r {
        Ok(g) if *g == want => Ok(()),
        Ok(g) => {
            let at = g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
            Err(format!("text {:?}... ({} bytes): {} ids, expected {}; first difference at {}: {:?} instead of {:?}", cut(t), t.len(), g.len(), want.len(), at, g.get(at), want.get(at)))
        }
        Err(e) => Err(format!("text {:?}... ({} bytes): {}", cut(t), t.len(), e)),
    }
}
