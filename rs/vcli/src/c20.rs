//! C20: allow-regexes and named patterns.
use crate::util::*;
use ::regex::Regex;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use crate::api::{self, Pattern};
use std::sync::OnceLock;

type R = std::result::Result<(), String>;

// ---- what the names describe, without regular expressions ----
fn low(c: char) -> bool {
    c.is_ascii_lowercase()
}
fn up(c: char) -> bool {
    c.is_ascii_uppercase()
}
fn al(c: char) -> bool {
    c.is_ascii_alphabetic()
}
fn dig(c: char) -> bool {
    c.is_ascii_digit()
}
fn pu(c: char) -> bool {
    c.is_ascii_punctuation()
}
fn fr(c: char) -> bool {
    al(c) || ('À'..='ÿ').contains(&c)
}
fn zh(c: char) -> bool {
    ('\u{3400}'..='\u{4dbf}').contains(&c) || ('\u{4e00}'..='\u{9fff}').contains(&c)
}
/// between a and b characters, all of the class
fn all(s: &[char], a: usize, b: usize, f: fn(char) -> bool) -> bool {
    s.len() >= a && s.len() <= b && s.iter().all(|c| f(*c))
}
const M: usize = usize::MAX;
/// split into a first part of the class (one or more) and a rest, in every way
fn splits(s: &[char], a: usize, b: usize, f: fn(char) -> bool, rest: impl Fn(&[char]) -> bool) -> bool {
    (a..=s.len().min(b)).any(|k| s[..k].iter().all(|c| f(*c)) && rest(&s[k..]))
}
fn osp(s: &[char], f: impl Fn(&[char]) -> bool) -> bool {
    f(s) || s.first() == Some(&' ') && f(&s[1..])
}
fn sp(s: &[char], f: impl Fn(&[char]) -> bool) -> bool {
    s.first() == Some(&' ') && f(&s[1..])
}
fn wrapped(s: &[char], a: &[char], b: &[char], f: impl Fn(&[char]) -> bool) -> bool {
    s.len() >= 2 && a.contains(&s[0]) && b.contains(&s[s.len() - 1]) && f(&s[1..s.len() - 1])
}
fn cap(s: &[char]) -> bool {
    !s.is_empty() && up(s[0]) && all(&s[1..], 1, M, low)
}
fn decimal(s: &[char]) -> bool {
    splits(s, 1, 3, dig, |r| r.len() == 2 && r[0] == '.' && dig(r[1]))
}
const OPS: [&str; 41] = [
    "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "&&", "||", "==", "!=", "!==", "<", ">", "<=", ">=", "<<", ">>", ">>>", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "=>", "->", ".", "...", "?", "=", ":=",
    "[]", "()",
];

fn describes(name: &str, s: &[char]) -> Option<bool> {
    let n = s.len();
    let space_or_punct: fn(char) -> bool = |c| c == ' ' || pu(c);
    Some(match name {
        "any-char" => n == 1 && s[0] != '\n',
        "lowercase-word" => all(s, 1, M, low),
        "space-lowercase-word" => osp(s, |s| all(s, 1, M, low)),
        "uppercase-word" => all(s, 1, M, up),
        "space-uppercase-word" => osp(s, |s| all(s, 1, M, up)),
        "capitalized-word" => cap(s),
        "space-capitalized-word" => osp(s, cap),
        "word" => all(s, 1, M, al),
        "space-word" => osp(s, |s| all(s, 1, M, al)),
        "space-english-word" => osp(s, |s| splits(s, 1, M, al, |r| r.first() == Some(&'\'') && all(&r[1..], 1, 2, al))),
        "space-french-word" => osp(s, |s| all(s, 1, M, fr)),
        "chinese-word" => all(s, 1, M, zh),
        "english-contraction" => ["'re", "'ve", "'s", "'d", "'ll", "'t", "'m"].contains(&s.iter().collect::<String>().as_str()),
        "space-digit" => sp(s, |s| all(s, 1, 1, dig)),
        "short-number" => all(s, 1, 3, dig),
        "space-short-number" => sp(s, |s| all(s, 1, 3, dig)),
        "short-decimal-number" => decimal(s),
        "space-short-decimal-number" => sp(s, decimal),
        "word-wrapped-in-brackets" => wrapped(s, &['['], &[']'], |s| all(s, 1, M, al)),
        "short-number-wrapped-in-brackets" => wrapped(s, &['['], &[']'], |s| all(s, 1, 3, dig)),
        "word-wrapped-in-quotes" => wrapped(s, &['\'', '"'], &['\'', '"'], |s| all(s, 1, M, al)),
        "word-wrapped-in-angle-brackets" => wrapped(s, &['<'], &['>'], |s| all(s, 1, M, al)),
        "punct-word" => n > 0 && pu(s[0]) && all(&s[1..], 1, M, al),
        "space-punct-word" => sp(s, |s| !s.is_empty() && pu(s[0]) && all(&s[1..], 1, M, al)),
        "word-punct" => n == 2 && al(s[0]) && pu(s[1]),
        "dot-short-number" => n > 0 && s[0] == '.' && all(&s[1..], 1, 3, dig),
        "indent" => all(s, 1, M, |c| c == ' ') || all(s, 1, M, |c| c == '\t'),
        "newline-indent" => n > 0 && s[0] == '\n' && (all(&s[1..], 1, M, |c| c == ' ') || all(&s[1..], 1, M, |c| c == '\t')),
        "whitespace" => all(s, 1, M, char::is_whitespace),
        "space-punct-space" => osp(s, |s| n > 0 && !s.is_empty() && pu(s[0]) && (s.len() == 1 || s.len() == 2 && s[1] == ' ')),
        "repeated-punct" => all(s, 1, M, pu),
        "few-repeated-punct" => all(s, 1, 4, pu),
        "repeated-punct-space" => all(s, 1, M, space_or_punct),
        "few-repeated-punct-space" => all(s, 1, 4, space_or_punct),
        "punct-newline" => n > 1 && s[n - 1] == '\n' && all(&s[..n - 1], 1, M, pu),
        "repeated-punct-newline-indent" => splits(s, 1, M, pu, |r| r.first() == Some(&'\n') && all(&r[1..], 1, M, |c| c == ' ' || c == '\t')),
        "space-operator-space" => osp(s, |s| OPS.iter().any(|o| {
            let o: Vec<char> = o.chars().collect();
            s == &o[..] || s.len() == o.len() + 1 && s.starts_with(&o) && s[o.len()] == ' '
        })),
        _ => return None,
    })
}

fn whole(p: &str) -> Regex {
    Regex::new(&format!(r"\A(?:{})\z", p)).unwrap()
}

const CUSTOM: [&str; 22] = [
    "a", "a|b", "ab|a", "a|", "", "^a", "b$", "^$", "(?i)ab", "(?s).", "(?s).*", "(?m)^a$", "(a)(b)?", "[^a]", "a*?b", r"\bab\b", "(?x)a b", "^(?:a|b)$", "(?U)a+", r"[\s\S]", r"a\n", "é|好",
];

static PATTERNS: OnceLock<Vec<Pattern>> = OnceLock::new();

fn patterns() -> &'static [Pattern] {
    PATTERNS.get().unwrap()
}

fn regex_of(p: &str) -> Regex {
    match patterns().iter().find(|x| x.name == p) {
        Some(x) => x.regex.clone(),
        None => Regex::new(p).unwrap(),
    }
}

fn allow(list: &[&str]) -> Regex {
    api::allow(list, regex_of)
}

/// Does at least one of the patterns match the whole text?
fn union(ps: &[(&str, Regex)], s: &str, cs: &[char]) -> bool {
    ps.iter().any(|(n, w)| describes(n, cs).filter(|_| patterns().iter().any(|x| x.name == *n)).unwrap_or_else(|| w.is_match(s)))
}

pub fn run(h: &mut H) {
    let _ = PATTERNS.set(api::load(h.cli.as_deref(), &h.scratch));
    let names: Vec<&str> = patterns().iter().map(|p| p.name).collect();
    // A: the documented examples
    for Pattern { name: n, yes, no, .. } in patterns() {
        h.case(
            || format!("documented examples of {}", n),
            |h| {
                let a = allow(&[n]);
                for (s, want) in yes.iter().map(|s| (s, true)).chain(no.iter().map(|s| (s, false))) {
                    h.traces += 1;
                    h.state(&("A", n, s));
                    if a.is_match(s) != want {
                        let e = format!("{} {} its documented {}example {:?}", n, if want { "rejects" } else { "accepts" }, if want { "" } else { "counter-" }, s);
                        if *n == "space-punct-space" && *s == " != " {
                            h.known("example-space-punct-space", e);
                        } else {
                            return Err(e);
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // B: each named pattern against what its name describes: all short strings, every scalar
    let wide = ["a", "z", "m", "A", "Z", "0", "9", " ", "\t", "\n", "\r", "'", "\"", "[", "]", "<", ">", ".", "!", "-", "_", "=", "é", "ÿ", "À", "Ā", "¿", "好", "\u{3400}", "\u{3000}", "\u{85}", "٣", "…", "|"];
    let wide_texts = strings(&wide, 0, h.pick(3, 3));
    let small = ["a", "B", "1", " ", "\t", "\n", "'", ".", "!", "[", "]", "=", ">"];
    let small_texts = strings(&small, 4, h.pick(4, 5));
    let ops = strings(&["<", ">", "=", "!", "+", "-", "&", "|", ":", ".", " ", "[", "]", "(", ")", "*", "/", "%", "^", "~", "?"], 0, 4);
    let mini = strings(&["a", "b", "'", " ", "1", "."], 5, h.pick(7, 8));
    for n in &names {
        for part in 0..4usize {
            h.case(
                || format!("{} against its description, part {}", n, part),
                |h| {
                    let a = allow(&[n]);
                    let list: Box<dyn Iterator<Item = String>> = match part {
                        0 => Box::new(wide_texts.iter().chain(&small_texts).cloned()),
                        1 => Box::new(ops.iter().cloned()),
                        2 => Box::new(mini.iter().cloned()),
                        _ => Box::new((0..0x110000u32).filter_map(char::from_u32).flat_map(|c| [format!("{}", c), format!("a{}", c), format!(" {}", c)])),
                    };
                    for s in list {
                        let cs: Vec<char> = s.chars().collect();
                        let Some(want) = describes(n, &cs) else {
                            h.caps.push(format!("no description of pattern {} is known here", n));
                            return Ok(());
                        };
                        h.trans += 1;
                        if a.is_match(&s) != want {
                            return Err(format!("{} {} {:?}", n, if want { "rejects" } else { "accepts" }, s));
                        }
                    }
                    h.traces += 1;
                    h.state(&("B", n, part));
                    Ok(())
                },
            );
        }
    }
    // C: unions of at most three patterns
    let all: Vec<&str> = names.iter().copied().chain(CUSTOM).collect();
    let texts: Vec<String> = strings(&["a", "B", "1", " ", "\n", "'", ".", "é"], 0, 3).into_iter().chain(strings(&["a", "b", "\n"], 4, 5)).chain(strings(&[" ", "!", "="], 4, 5)).collect();
    let texts: Vec<(String, Vec<char>)> = texts.into_iter().map(|s| (s.clone(), s.chars().collect())).collect();
    let wholes: BTreeMap<&str, Regex> = all.iter().map(|p| (*p, whole(regex_of(p).as_str()))).collect();
    let mut lists: Vec<Vec<&str>> = vec![];
    for a in &all {
        lists.push(vec![a]);
        for b in &all {
            lists.push(vec![a, b]);
        }
    }
    let third = ["word", "a|b", "^a", "space-punct-space", "(?i)ab", "", "newline-indent", "b$"];
    for a in third {
        for b in third {
            for c in third {
                lists.push(vec![a, b, c]);
            }
        }
    }
    if !h.quick() {
        for a in &all {
            for b in &all {
                for c in ["^a", "a|", "few-repeated-punct", "(?m)^a$"] {
                    lists.push(vec![a, c, b]);
                }
            }
        }
    }
    lists.push(names.clone());
    lists.push(names.iter().rev().copied().collect());
    lists.push(all.iter().filter(|p| !p.is_empty() && !p.contains(".*")).copied().collect());
    for chunk in lists.chunks(16) {
        h.case(
            || format!("unions of 16 lists of patterns, the first {:?}", chunk[0]),
            |h| {
                for list in chunk {
                    let a = allow(&list);
                    // written out and read back
                    let b = Regex::new(a.as_str()).map_err(|e| format!("the regex of {:?} does not compile when read back: {}", list, e))?;
                    let ps: Vec<(&str, Regex)> = list.iter().map(|p| (*p, wholes[p].clone())).collect();
                    h.traces += 1;
                    h.state(&("C", list));
                    for (s, cs) in &texts {
                        h.trans += 1;
                        let want = union(&ps, s, cs);
                        if a.is_match(s) != want || b.is_match(s) != want {
                            return Err(format!("the regex of {:?} {} {:?}", list, if want { "rejects" } else { "accepts" }, s));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // C2: the regex shipped in data/ is the one of the patterns the README lists for it
    if let Ok(shipped) = std::fs::read_to_string("/repo/data/exact.regex") {
        let list = ["any-char", "lowercase-word", "uppercase-word", "capitalized-word", "english-contraction", "chinese-word", "indent", "space-operator-space", "space-punct-space"];
        h.case(
            || format!("data/exact.regex against {:?}", list),
            |h| {
                let a = Regex::new(&shipped).map_err(|e| format!("data/exact.regex does not compile: {}", e))?;
                let b = allow(&list);
                let ps: Vec<(&str, Regex)> = list.iter().map(|p| (*p, wholes[p].clone())).collect();
                h.state(&"C2");
                h.traces += 1;
                for (s, cs) in &texts {
                    h.trans += 1;
                    let want = union(&ps, s, cs);
                    if a.is_match(s) != want || b.is_match(s) != want {
                        return Err(format!("{:?}: the patterns {} it, data/exact.regex {} it, the regex compiled from them {} it", s, if want { "accept" } else { "reject" }, if a.is_match(s) { "accepts" } else { "rejects" }, if b.is_match(s) { "accepts" } else { "rejects" }));
                    }
                }
                Ok(())
            },
        );
    }
    // E: many patterns at once, in process and through the file
    let cli = h.cli.clone();
    for n in [31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1025] {
        h.case(
            || format!("{} patterns of which each accepts one text", n),
            |h| {
                let pats: Vec<String> = (0..n).map(|i| if i % 50 == 17 { "word".to_string() } else { format!("q{}(?:7|-x)", i) }).collect();
                let mut texts: Vec<(String, bool)> = vec![];
                for i in 0..n {
                    if i % 50 == 17 {
                        continue;
                    }
                    texts.push((format!("q{}7", i), (0..n).any(|j| j % 50 != 17 && (i * 10 + 7 == j * 10 + 7))));
                    texts.push((format!("q{}-x", i), true));
                    texts.push((format!("q{}-", i), false));
                    texts.push((format!("q{}-xx", i), false));
                }
                texts.push(("-q1-x".into(), false));
                texts.push((format!("q{}-x", n), false));
                let a = allow(&pats.iter().map(|p| p.as_str()).collect::<Vec<_>>());
                h.traces += 1;
                h.state(&("E", n));
                for (t, want) in &texts {
                    h.trans += 1;
                    if a.is_match(t) != *want {
                        return Err(format!("the regex of {} patterns {} {:?}", n, if *want { "rejects" } else { "accepts" }, t));
                    }
                }
                if let Some(cli) = &cli {
                    let f = format!("{}/many", h.scratch);
                    let _ = std::fs::remove_file(&f);
                    let mut args = strs(&["regex", "-o", &f]);
                    for p in &pats {
                        args.push("-p".into());
                        args.push(p.clone());
                    }
                    let o = Command::new(cli).args(&args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).output().map_err(|e| e.to_string())?;
                    if !o.status.success() {
                        return Err(format!("`regex` with {} patterns failed: {}", n, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()));
                    }
                    h.count("cli_runs", 1);
                    let b = Regex::new(&std::fs::read_to_string(&f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                    for (t, want) in &texts {
                        if b.is_match(t) != *want {
                            return Err(format!("the file `regex` wrote for {} patterns {} {:?}", n, if *want { "rejects" } else { "accepts" }, t));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // `regex` without an output file shows every named pattern, and what it
    // shows accepts what the name stands for
    h.case(
        || "`regex` alone lists the named patterns".into(),
        |h| {
            let Some(cli) = &cli else { return Err("the command-line program is missing".into()) };
            let o = Command::new(cli).arg("regex").stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
            if !o.status.success() {
                return Err(format!("`regex` failed: {}", String::from_utf8_lossy(&o.stderr)));
            }
            h.count("cli_runs", 1);
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            for n in &names {
                let Some(shown) = out.lines().find_map(|l| l.strip_prefix(&format!("{}: ", n))) else { return Err(format!("{:?} is not listed", n)) };
                let a = whole(shown);
                for (s, _) in &texts {
                    h.trans += 1;
                    if a.is_match(s) != wholes[n].is_match(s) {
                        return Err(format!("the pattern shown for {:?} {} {:?}", n, if a.is_match(s) { "accepts" } else { "rejects" }, s));
                    }
                }
            }
            h.traces += 1;
            h.state(&"list");
            Ok(())
        },
    );
    // D: through files: `regex` writes, `generate` reads. The vocabulary generated
    // from samples spelling out every text holds exactly the accepted ones.
    let cli = h.cli.clone();
    let mut flists: Vec<Vec<String>> = all.iter().filter(|p| !p.is_empty()).map(|p| vec![p.to_string()]).collect();
    for (i, a) in all.iter().enumerate() {
        let b = all[(i * 7 + 3) % all.len()];
        if !a.is_empty() && !b.is_empty() {
            flists.push(vec![a.to_string(), b.to_string()]);
        }
    }
    flists.push(strs(&names));
    for p in ["a\n1", "a\r1", " a", "a ", "\ta", "B1|\na"] {
        flists.push(vec![p.to_string()]);
        flists.push(vec!["word".into(), p.to_string()]);
    }
    // patterns that resemble the name of a named one are custom patterns
    let lookalikes: Vec<String> = names
        .iter()
        .flat_map(|n| {
            let mut c = n.chars();
            let first = c.next().unwrap();
            let cap = first.to_uppercase().chain(c).collect::<String>();
            [n.to_uppercase(), cap, format!("{} ", n), format!(" {}", n), n.replace('-', "_"), n.replace('-', ""), n[..n.len() - 1].to_string(), format!("{}s", n), n.replace('-', " "), format!("({})", n), n.rsplit('-').next().unwrap().to_string()]
        })
        .filter(|n| !names.contains(&n.as_str()))
        .collect();
    let lookalikes: Vec<String> = lookalikes.into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    for chunk in lookalikes.chunks(12) {
        let _ = &chunk;
        flists.push(chunk.to_vec());
    }
    let like: Vec<String> = lookalikes.iter().map(|s| s.replace(['(', ')'], "")).flat_map(|s| [s.trim().to_string(), s]).collect();
    let mut ftexts: Vec<String> = strings(&["a", "B", "1", " ", "\n", "\r", "\t", "'", ".", "!", "[", "]", "=", "é", "好"], 0, 3).into_iter().filter(|s| s.len() > 1).collect();
    ftexts.extend(names.iter().map(|n| n.to_string()).chain(like));
    // what `generate` considers: every substring
    let fall: Vec<(String, Vec<char>)> = ftexts
        .iter()
        .flat_map(|s| {
            let c: Vec<char> = s.chars().collect();
            (0..c.len()).flat_map(|i| (i + 1..=c.len()).map(|j| c[i..j].iter().collect::<String>()).collect::<Vec<_>>()).collect::<Vec<_>>()
        })
        .filter(|s| s.len() > 1)
        .collect::<std::collections::BTreeSet<_>>()
        .into_iter()
        .map(|s| {
            let c = s.chars().collect();
            (s, c)
        })
        .collect();
    for list in flists {
        h.case(
            || format!("patterns {:?} written to a file by `regex` and used by `generate`", list),
            |h| {
                let Some(cli) = &cli else {
                    return Err("the command-line program is missing".into());
                };
                let dir = h.scratch.clone();
                let f = |n: &str| format!("{}/{}", dir, n);
                let _ = std::fs::remove_file(f("allow"));
                let _ = std::fs::remove_file(f("out.json"));
                let go = |args: &[String]| -> R {
                    let o = Command::new(cli).args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).output().map_err(|e| e.to_string())?;
                    if !o.status.success() {
                        return Err(format!("{:?} failed: {}", args, String::from_utf8_lossy(&o.stderr).chars().take(500).collect::<String>()));
                    }
                    Ok(())
                };
                let mut args = strs(&["regex", "-o", &f("allow")]);
                for p in &list {
                    args.push("-p".into());
                    args.push(p.clone());
                }
                go(&args)?;
                std::fs::write(f("train"), ftexts.join("\0")).map_err(|e| e.to_string())?;
                go(&strs(&["generate", "-v", "1000000", "-o", &f("out.json"), "--train", &format!("x:{}", f("train")), "--allow", &f("allow"), "--max-token-length", "64", "--insert-probability", "1"]))?;
                let v: serde_json::Value = serde_json::from_slice(&std::fs::read(f("out.json")).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                let mut got: Vec<String> = v["vocab"].as_array().ok_or("no vocabulary")?.iter().filter(|t| t["encoded"] != true).map(|t| t["value"].as_str().unwrap_or("").to_string()).filter(|s| s.len() > 1).collect();
                got.sort();
                let ps: Vec<(&str, Regex)> = list.iter().map(|p| (p.as_str(), whole(regex_of(p).as_str()))).collect();
                let mut want: Vec<String> = fall.iter().filter(|(s, c)| union(&ps, s, c)).map(|(s, _)| s.clone()).collect();
                want.sort();
                h.traces += 1;
                h.trans += fall.len() as u64;
                h.state(&("D", &list));
                h.count("cli_runs", 2);
                if got != want {
                    let e = match got.iter().find(|s| !want.contains(s)) {
                        Some(s) => format!("after the file, {:?} accepts {:?}", list, s),
                        None => format!("after the file, {:?} rejects {:?}", list, want.iter().find(|s| !got.contains(s)).unwrap()),
                    };
                    // the listed finding: line breaks in the file are dropped
                    if list.iter().any(|p| p.contains(['\n', '\r'])) {
                        let strip: Vec<(String, Regex)> = list.iter().map(|p| (p.replace(['\n', '\r'], ""), whole(&regex_of(p).as_str().replace(['\n', '\r'], "")))).collect();
                        let strip: Vec<(&str, Regex)> = strip.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
                        let mut as_listed: Vec<String> = fall.iter().filter(|(s, c)| union(&strip, s, c)).map(|(s, _)| s.clone()).collect();
                        as_listed.sort();
                        if as_listed == got {
                            h.known("line-break-in-file", e);
                            return Ok(());
                        }
                    }
                    return Err(e);
                }
                Ok(())
            },
        );
    }
}
