//! C12: text processors.
use crate::util::*;
use std::collections::{BTreeMap, HashMap};

type R = std::result::Result<(), String>;

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

/// The table of normal forms computed by Python's unicodedata.
struct Table {
    ranges: Vec<(u32, u32)>,
    singles: HashMap<String, [String; 4]>,
    seqs: Vec<(String, [String; 4])>,
    runs: Vec<(String, [String; 4])>,
    units: Vec<(String, [String; 4])>,
}

fn table(path: &str) -> Table {
    let mut t = Table { ranges: vec![], singles: HashMap::new(), seqs: vec![], runs: vec![], units: vec![] };
    let mut part = 0;
    for l in std::fs::read_to_string(path).unwrap_or_else(|e| panic!("reference table {}: {}", path, e)).lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "R" => t.ranges.push((u32::from_str_radix(f[1], 16).unwrap(), u32::from_str_radix(f[2], 16).unwrap())),
            "S" | "L" | "U" => part += 1,
            _ => {
                let v = [unhex(f[2]), unhex(f[3]), unhex(f[4]), unhex(f[5])];
                match part {
                    0 => drop(t.singles.insert(unhex(f[1]), v)),
                    1 => t.seqs.push((unhex(f[1]), v)),
                    2 => t.runs.push((unhex(f[1]), v)),
                    _ => t.units.push((unhex(f[1]), v)),
                }
            }
        }
    }
    t
}

const FORMS: [&str; 4] = ["nfc", "nfd", "nfkc", "nfkd"];

struct Tk {
    p: ProcessorWrapper,
    t: Tokenizer,
}

fn one(h: &mut H, k: &Tk, text: &str, want: &str) -> R {
    h.traces += 1;
    h.trans += 2;
    let got = k.p.preprocess(text);
    if got != want {
        return Err(format!("{:?} ({}) is processed into {:?} instead of {:?}", text, hex(text.as_bytes()), got, want));
    }
    if k.p.postprocess(text) != text {
        return Err(format!("post-processing changes {:?}", text));
    }
    let ids = es(k.t.encode(text, 0.0))?;
    let plain: Vec<u32> = want.bytes().map(|b| b as u32).collect();
    if ids != plain {
        return Err(format!("{:?} encodes to {:?} instead of the ids of {:?}", text, ids, want));
    }
    if es(k.t.encode_ordinary(text, 0.0))? != plain {
        return Err(format!("{:?} in ordinary mode does not encode to the ids of {:?}", text, want));
    }
    // decoding the raw text's ids gives the raw text
    let raw: Vec<u32> = text.bytes().map(|b| b as u32).collect();
    let d = es(k.t.decode(&raw, true))?;
    if d != text {
        return Err(format!("the ids of {:?} decode to {:?}", text, d));
    }
    Ok(())
}

fn tk(ps: &[&str]) -> Tokenizer {
    tokenizer(&bytes_vocab(), ps, &[])
}

fn dedup(t: &Table) -> Vec<(String, [String; 4])> {
    let mut m: BTreeMap<String, [String; 4]> = BTreeMap::new();
    for (a, b) in &t.seqs {
        m.insert(a.clone(), b.clone());
    }
    m.into_iter().collect()
}

pub fn run(h: &mut H) {
    let t = table(&h.aux.clone());
    let ks: Vec<Tk> = FORMS.iter().map(|f| Tk { p: proc_of(f), t: tk(&[f]) }).collect();
    // A: every assigned scalar under each form
    for chunk in 0..0x110u32 {
        h.case(
            || format!("every assigned scalar from {:#x} to {:#x}, four forms", chunk << 12, (chunk << 12) + 0xfff),
            |h| {
                for c in (chunk << 12..(chunk + 1) << 12).filter_map(char::from_u32) {
                    if !t.ranges.iter().any(|r| r.0 <= c as u32 && c as u32 <= r.1) {
                        continue;
                    }
                    let s = c.to_string();
                    h.state(&c);
                    let w = t.singles.get(&s);
                    for (i, k) in ks.iter().enumerate() {
                        one(h, k, &s, w.map_or(&s, |w| &w[i]))?;
                    }
                }
                Ok(())
            },
        );
    }
    // B: sequences
    let seqs_ = dedup(&t);
    let crlf_any = proc_of("crlf");
    for (ci, chunk) in seqs_.chunks(500).enumerate() {
        h.case(
            || format!("500 of the {} listed sequences of decomposable characters, marks and jamo, starting with {:?}", seqs_.len(), chunk[0].0),
            |h| {
                for (s, w) in chunk {
                    h.state(s);
                    for (i, k) in ks.iter().enumerate() {
                        one(h, k, s, &w[i])?;
                    }
                    // canonically equivalent texts: the text, its NFC and its NFD
                    for (i, k) in ks.iter().enumerate() {
                        let a = es(k.t.encode(s, 0.0))?;
                        for v in [&w[0], &w[1]] {
                            let b = es(k.t.encode(v, 0.0))?;
                            if a != b {
                                return Err(format!("{:?} and the equivalent {:?} get different ids under {}", s, v, FORMS[i]));
                            }
                        }
                    }
                    // in a context
                    if ci % 4 == 0 {
                        for (pre, post) in [("x", "y"), ("\r\n", "\r")] {
                            let x = format!("{}{}{}", pre, s, post);
                            if !s.contains('\r') && crlf_any.preprocess(&x) != oracle::crlf(&x) {
                                return Err(format!("crlf on {:?}", x));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // C: CR LF: every text over four letters
    let k = Tk { p: proc_of("crlf"), t: tk(&["crlf"]) };
    let k_ = Tk { p: proc_of("crlf"), t: tk(&["crlf"]) };
    let texts = strings(&["\r", "\n", "a", "é"], 0, h.pick(8, 10));
    for chunk in texts.chunks(4096) {
        h.case(
            || format!("crlf on 4096 texts over CR, LF, a, é starting with {:?}", chunk[0]),
            |h| {
                for s in chunk {
                    h.state(&("C", s));
                    one(h, &k, s, &oracle::crlf(s))?;
                }
                Ok(())
            },
        );
    }
    for n in [63usize, 64, 65, 255, 256, 257, 1023, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100_001] {
        h.case(
            || format!("crlf and the four forms on texts of about {} characters", n),
            |h| {
                for (unit, at) in [("\r\n", 0), ("\r", 1), ("a\r\n", 2), ("\n\r", 0), ("é\r\n\r", 1)] {
                    let mut s: String = "x".repeat(at);
                    while s.len() < n {
                        s.push_str(unit);
                    }
                    h.state(&("C2", n, unit));
                    one(h, &k, &s, &oracle::crlf(&s))?;
                    s.push('\n');
                    one(h, &k, &s, &oracle::crlf(&s))?;
                }
                // long texts: the forms act piecewise between plain letters
                for (i, kk) in ks.iter().enumerate() {
                    let (mut s, mut w) = (String::new(), String::new());
                    let mut j = n * 31;
                    while s.len() < n {
                        let q = &seqs_[j % seqs_.len()];
                        j += 7919;
                        s.push_str(&q.0);
                        w.push_str(&q.1[i]);
                        // composes with nothing
                        s.push('\n');
                        w.push('\n');
                    }
                    one(h, kk, &s, &w)?;
                }
                Ok(())
            },
        );
    }
    // long runs of marks
    for chunk in t.runs.chunks(200) {
        h.case(
            || format!("200 of {} runs of up to 4097 marks, starting with {} characters from {:?}", t.runs.len(), chunk[0].0.chars().count(), chunk[0].0.chars().next()),
            |h| {
                for (s, w) in chunk {
                    h.state(s);
                    for (i, k) in ks.iter().enumerate() {
                        one(h, k, s, &w[i])?;
                    }
                }
                Ok(())
            },
        );
    }
    // long texts with a period, in every alignment
    for n in [100usize, 1000, 4096, 8192, 16_384, 32_768, 65_536, 131_072, 262_144, 524_288, 1_048_576] {
        if n > 140_000 && h.quick() && n < 1 << 20 {
            continue;
        }
        for (u, w) in &t.units {
            h.case(
                || format!("{:?} repeated past {} bytes, in every alignment", u, n),
                |h| {
                    for at in 0..u.len() {
                        let rep = n / u.len() + 3;
                        let s = "x".repeat(at) + &u.repeat(rep);
                        h.state(&("period", n, u, at));
                        for (i, k) in ks.iter().enumerate() {
                            if n > 140_000 && at % 2 == 1 && i % 2 == 1 {
                                continue;
                            }
                            one(h, k, &s, &("x".repeat(at) + &w[i].repeat(rep))).map_err(|e| e.chars().take(300).collect::<String>())?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // CR LF in every alignment, and far from each other
    for n in [1usize << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20] {
        h.case(
            || format!("crlf on texts of about {} bytes, in every alignment", n),
            |h| {
                for unit in ["\r\n", "\r\r\n", "a\r\n"] {
                    for at in 0..unit.len() {
                        let s = "x".repeat(at) + &unit.repeat(n / unit.len() + 2);
                        one(h, &k, &s, &oracle::crlf(&s)).map_err(|e| e.chars().take(300).collect::<String>())?;
                    }
                }
                for at in n - 3..n + 3 {
                    let s = "x".repeat(at) + "\r\n" + &"y".repeat(5);
                    one(h, &k, &s, &oracle::crlf(&s)).map_err(|e| e.chars().take(300).collect::<String>())?;
                }
                h.state(&("crlf", n));
                Ok(())
            },
        );
    }
    // texts of equal length one after the other in the same memory
    for n in [6usize, 60, 255, 256, 258, 1026, 4098, 65_538, 131_076] {
        h.case(
            || format!("eight texts of {} bytes one after the other in the same memory, under every processor", n),
            |h| {
                let mut s = String::with_capacity(n + 8);
                let six = ["e\u{301}abc", "abce\u{301}", "abcdef", "\r\nabcd", "\u{fb01}abc", "e\u{301}e\u{301}", "ab\r\r\nc", "\u{212b}xyz"];
                for (i, kk) in ks.iter().map(Some).chain([None]).enumerate() {
                    let kk = kk.unwrap_or(&k_);
                    for step in 0..32usize {
                        let k = step * 3 % 8;
                        s.clear();
                        // the difference lies in the middle only
                        s.push_str(&"abcdef".repeat(n / 12));
                        s.push_str(six[k]);
                        s.push_str(&"abcdef".repeat(n / 6 - n / 12 - 1));
                        h.state(&("same memory", n, k));
                        let mid = match (k, i) {
                            (0, 0 | 2) => "\u{e9}abc",
                            (1, 0 | 2) => "abc\u{e9}",
                            (4, 2 | 3) => "fiabc",
                            (5, 0 | 2) => "\u{e9}\u{e9}",
                            (7, 0 | 2) => "\u{c5}xyz",
                            (7, 1 | 3) => "A\u{30a}xyz",
                            (3, 4) => "\nabcd",
                            (6, 4) => "ab\r\nc",
                            _ => six[k],
                        };
                        let w = if k == 2 { s.clone() } else { s.replace(six[k], mid) };
                        if step < 16 {
                            one(h, kk, &s, &w).map_err(|e| e.chars().take(300).collect::<String>())?;
                        } else if kk.p.preprocess(&s) != w {
                            return Err(format!("text {} processed wrongly after others of its length", k));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // D: processor lists: applied in order, before encoding only
    let letters = ["\r", "\r\n", "a", "\u{301}", "é", "\u{fb01}", "\u{212b}", "\u{1100}\u{1161}", "\u{327}"];
    let texts: Vec<String> = strings(&letters, 0, h.pick(3, 4));
    for ps in seqs(&PROCS, 0, 3) {
        h.case(
            || format!("processors {:?} on every text of at most {} of {:?}", ps, h_n(), letters),
            |h| {
                let t = tokenizer(&bytes_vocab(), &ps, &strs(&["<s>", "e\u{301}"]));
                for s in &texts {
                    h.state(&("D", &ps, s));
                    h.traces += 1;
                    h.trans += 1;
                    let w: Vec<u32> = process(&ps, s).bytes().map(|b| b as u32).collect();
                    for (how, got) in [("ordinary", es(t.encode_ordinary(s, 0.0))?), ("full", es(t.encode(s, 0.0))?)] {
                        if got != w {
                            return Err(format!("{:?} ({}) encodes to {:?} instead of the ids of {:?}", s, how, got, process(&ps, s)));
                        }
                    }
                    let x = format!("{}<s>{}e\u{301}", s, s);
                    let mut wx = w.clone();
                    wx.push(256);
                    wx.extend(&w);
                    wx.push(257);
                    let got = es(t.encode(&x, 0.0))?;
                    if got != wx {
                        return Err(format!("{:?} encodes to {:?} instead of {:?}", x, got, wx));
                    }
                    let raw: Vec<u32> = s.bytes().map(|b| b as u32).chain([256, 257]).collect();
                    if es(t.decode(&raw, true))? != format!("{}<s>e\u{301}", s) {
                        return Err(format!("decoding the ids of {:?} changes them", s));
                    }
                }
                Ok(())
            },
        );
    }
}

fn h_n() -> &'static str {
    "3 (4)"
}
