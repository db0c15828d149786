use crate::ex::*;
use crate::train::*;
use std::collections::BTreeMap;

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn flag(a: &mut Vec<String>, k: &str, v: impl ToString) {
    a.push(k.into());
    a.push(v.to_string());
}

fn done(h: &mut H, runs: u64, key: &impl std::hash::Hash, steps: usize) {
    h.traces += 1;
    h.trans += steps as u64;
    h.count("program_runs", runs);
    h.state(key);
}

fn same_frame(o: &File, special: &[String], procs: &[String]) -> Res {
    let mut sp: Vec<String> = vec![];
    for s in special {
        if !sp.contains(s) {
            sp.push(s.clone());
        }
    }
    if o.special != sp {
        return Err(format!("special tokens {:?}, expected {:?}", o.special, sp));
    }
    if o.procs != procs {
        return Err(format!("processors {:?}, expected {:?}", o.procs, procs));
    }
    Ok(())
}

fn processed(procs: &[String], samples: &[String]) -> Vec<String> {
    samples.iter().filter(|s| !s.is_empty()).map(|s| process(procs, s)).filter(|s| !s.is_empty()).collect()
}

// ---------------------------------------------------------------- generate

fn texts() -> Vec<Vec<String>> {
    vec![
        strs(&["ab ab\r\nabc", "abc de\u{301}", "", "é ab", "xyz\r\nabc"]),
        strs(&["aa", "aaa", "a"]),
        (0..23).map(|i| format!("{} {}{}\r\n", ["fn a", "let b", "if e\u{301}", "é = c"][i % 4], ["ab", "cab", "b"][i % 3], &"xy"[..i % 3])).collect(),
        vec![],
    ]
}

struct GenRun {
    size: usize,
    special: Vec<String>,
    procs: Vec<String>,
    added: Vec<Vec<String>>,
    suggested: Vec<Vec<String>>,
    g: Gen,
    p: Option<&'static str>,
    parts: usize,
}

fn gen_args(w: &W, r: &GenRun, samples: &[String]) -> Result<Vec<String>, String> {
    let mut a = strs(&["generate"]);
    flag(&mut a, "-v", r.size);
    flag(&mut a, "-o", w.f("o.json"));
    a.extend(w.sources(samples, r.parts)?);
    for s in &r.special {
        flag(&mut a, "--special", s);
    }
    for s in &r.procs {
        flag(&mut a, "--processor", s);
    }
    for (k, l) in [("added", &r.added), ("suggested", &r.suggested)] {
        for (i, f) in l.iter().enumerate() {
            flag(&mut a, &format!("--{}", k), w.put(&format!("{}{}.json", k, i), serde_json::to_string(f).unwrap().as_bytes())?);
        }
    }
    if let Some(x) = r.g.allow {
        flag(&mut a, "--allow", w.put("allow", x.as_bytes())?);
    }
    if let Some(x) = r.g.split {
        flag(&mut a, "--split", w.put("split", x.as_bytes())?);
    }
    flag(&mut a, "--max-token-length", r.g.max_len);
    if let Some(p) = r.p {
        flag(&mut a, "--insert-probability", p);
    }
    Ok(a)
}

fn gen_check(r: &GenRun, samples: &[String], o: &File) -> Res {
    same_frame(o, &r.special, &r.procs)?;
    let mut c = counts(&r.g, &processed(&r.procs, samples));
    let v = o.tokens();
    match r.p {
        Some("1") => check_generated(&r.g, &c, r.size, &v),
        Some("0") => {
            c = counts(&r.g, &[]);
            check_generated(&r.g, &c, r.size, &v)
        }
        _ => {
            let s = generated_shape(&v)?;
            if v.len() > r.size.max(s.bytes) {
                return Err(format!("{} tokens generated, {} requested", v.len(), r.size));
            }
            match s.multi.keys().find(|b| !c.contains_key(&lossy(b))) {
                Some(b) => Err(format!("{:?} is neither listed nor an allowed substring of a sample", lossy(b))),
                None if r.size > 5000 => check_lower(&r.g, &c, &v).map(|_| ()),
                None => Ok(()),
            }
        }
    }
}

pub fn generate(h: &mut H) {
    let sizes = [10000usize, 264, 257, 100];
    let specials = [strs(&[]), strs(&["<s>"]), strs(&["<s>", "ab", "<s>"])];
    let procs = [strs(&[]), strs(&["crlf"]), strs(&["nfd"]), strs(&["nfc", "crlf"]), strs(&["nfd", "nfc"])];
    let added: [Vec<Vec<String>>; 4] = [vec![], vec![strs(&["xyz", "q"])], vec![strs(&["ab", "zz"]), strs(&["é", "ab\r\n"])], vec![strs(&["abc"]), strs(&[]), strs(&["zzz"])]];
    let suggested: [Vec<Vec<String>>; 4] = [vec![], vec![strs(&["bc", "b"])], vec![strs(&["ab", "qq"]), strs(&["e\u{301}", "xy"])], vec![strs(&["zz", "ab"])]];
    let allows = [None, Some("^ ?[a-z]+$"), Some("^.{1,2}$"), Some("b")];
    let splits = [None, Some(r"\w+|\W"), Some(r"a(?!b)|[^a]+")];
    let lens = [24usize, 1, 2, 3, 5];
    let ps = [Some("1"), Some("0"), Some("0.5"), None];
    let n = [sizes.len(), specials.len(), procs.len(), added.len(), suggested.len(), allows.len(), splits.len(), lens.len(), ps.len(), 3, 3];
    let k = h.pick(2, 3);
    for (j, samples) in texts().into_iter().enumerate() {
        for s in around(&n, if j == 3 { 1 } else { k }) {
            h.case(
                || format!("generate through the program: samples {:?}, option values {:?}", samples, s),
                |h| {
                    let added = added[s[3]].clone();
                    let suggested = suggested[s[4]].clone();
                    let r = GenRun {
                        size: sizes[s[0]],
                        special: specials[s[1]].clone(),
                        procs: procs[s[2]].clone(),
                        g: Gen { max_len: lens[s[7]], split: splits[s[6]], allow: allows[s[5]], added: added.concat(), suggested: suggested.concat() },
                        added,
                        suggested,
                        p: ps[s[8]],
                        parts: [1, 2, 3][s[9]],
                    };
                    let w = W::new(h, [2, 1, 8][s[10]])?;
                    let a = gen_args(&w, &r, &samples)?;
                    let o = w.go(&a).and_then(|_| File::read(&w.f("o.json"))).and_then(|o| gen_check(&r, &samples, &o).map(|_| o)).map_err(|e| format!("{}: {}", w.short(&a), e))?;
                    let runs = w.runs.get();
                    done(h, runs, &(j, &s), o.vocab.len());
                    Ok(())
                },
            );
        }
    }
}

// ------------------------------------------------------------------- prune

fn vocab_of(multi: &[&str], keep: impl Fn(usize, &str) -> bool) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    for b in [b"a".to_vec(), b"b".to_vec(), b" ".to_vec(), vec![0xc3], vec![0xa9], b"e".to_vec(), vec![0xcc], vec![0x81], b"\r".to_vec(), b"\n".to_vec()] {
        let i = v.len();
        v.push(T { b, s: irregular(i), keep: true });
    }
    for (i, s) in multi.iter().enumerate() {
        let n = v.len();
        v.push(tk(s, irregular(n) - 0.5 * s.len() as f64, keep(i, s)));
    }
    v
}

fn vocabs(keep: usize) -> Vec<Vec<T>> {
    let k = move |i: usize, _: &str| match keep {
        0 => false,
        1 => i % 2 == 0,
        _ => true,
    };
    vec![
        vocab_of(&["ab", "ba", "aab", "é", "b "], k),
        vocab_of(&["aa", "bb", "abab", "ab", " a", "e\u{301}", "bab", "\r\n"], k),
        vocab_of(&["ab"], k),
    ]
}

fn prune_texts() -> Vec<Vec<String>> {
    vec![
        strs(&["abab ab", "aab ba", "é ab", "bab a"]),
        strs(&["aabab", "", "ab\r\nab", "e\u{301}é bb", "ba ba"]),
        (0..19).map(|i| format!("{}{}", ["ab", "aab ", "bb é", "abab"][i % 4], ["b", " a", "ba"][i % 3].repeat(1 + i % 2))).collect(),
        strs(&["b"]),
    ]
}

/// Pruning with dropout 0, or with dropout 1: then only single bytes are seen
/// by the expectation step.
fn pruned_with(vocab: &[T], samples: &[String], p: &Prune, bytes_only: bool) -> Option<Vec<T>> {
    if !bytes_only {
        return pruned(vocab, samples, p);
    }
    let mut v = vocab.to_vec();
    while v.len() > p.size {
        let n = v.len();
        for _ in 0..p.em {
            let one: Vec<T> = v.iter().filter(|t| t.b.len() == 1).cloned().collect();
            let e = expected(&one, samples);
            let all: Vec<f64> = v.iter().map(|t| one.iter().position(|o| o.b == t.b).map_or(0.0, |i| e[i])).collect();
            v = mstep(&v, &all)?;
        }
        v = select(&v, samples, p)?;
        if v.len() >= n {
            break;
        }
    }
    Some(v)
}

struct PruneRun {
    p: Prune,
    drop: &'static str,
    parts: usize,
}

fn prune_args(w: &W, r: &PruneRun, f: &File, samples: &[String]) -> Result<Vec<String>, String> {
    f.write(&w.f("i.json"))?;
    let mut a = strs(&["prune"]);
    flag(&mut a, "-i", w.f("i.json"));
    flag(&mut a, "-o", w.f("o.json"));
    flag(&mut a, "-v", r.p.size);
    a.extend(w.sources(samples, r.parts)?);
    flag(&mut a, "--dropout", r.drop);
    flag(&mut a, "--shrink-factor", r.p.shrink);
    flag(&mut a, "--em-subiters", r.p.em);
    Ok(a)
}

pub fn prune(h: &mut H) {
    let shrinks = [0.8, 0.5, 0.95, 0.1];
    let ems = [1usize, 0, 2, 5];
    let procs = [strs(&[]), strs(&["crlf"]), strs(&["nfd"]), strs(&["crlf", "nfc"])];
    let n = [5usize, shrinks.len(), ems.len(), 2, 3, procs.len(), 3, 3];
    let k = h.pick(2, 4);
    for (j, samples) in prune_texts().into_iter().enumerate() {
        for vi in 0..3 {
            for s in around(&n, k) {
                h.case(
                    || format!("prune through the program: vocabulary {}, samples {:?}, option values {:?}", vi, samples, s),
                    |h| {
                        let vocab = vocabs(s[4]).swap_remove(vi);
                        let size = [vocab.len() - 1, vocab.len() - 3, 2, vocab.len(), vocab.len() + 5][s[0]];
                        let r = PruneRun { p: Prune { size, shrink: shrinks[s[1]], em: ems[s[2]] }, drop: ["0", "1"][s[3]], parts: [1, 2, 3][s[6]] };
                        let f = File { special: strs(&["</s>", "<s>"]), procs: procs[s[5]].clone(), vocab: vocab.clone() };
                        let Some(want) = pruned_with(&vocab, &processed(&f.procs, &samples), &r.p, s[3] == 1) else {
                            h.count("too_close_to_call", 1);
                            return Ok(());
                        };
                        let w = W::new(h, [2, 1, 8][s[7]])?;
                        let a = prune_args(&w, &r, &f, &samples)?;
                        let o = w
                            .go(&a)
                            .and_then(|_| File::read(&w.f("o.json")))
                            .and_then(|o| same_frame(&o, &f.special, &f.procs).and_then(|_| same_vocab(&want, &o.tokens())).map(|_| o))
                            .map_err(|e| format!("{} of {:?}: {}", w.short(&a), f, e))?;
                        let runs = w.runs.get();
                        done(h, runs, &(j, vi, &s), o.vocab.len());
                        Ok(())
                    },
                );
            }
        }
    }
}

pub fn prune_invariants(h: &mut H) {
    let shrinks = [0.8, 0.0, 1.0, 1.5, -1.0];
    let ems = [1usize, 0, 3];
    let drops = ["0.1", "0", "0.5", "0.9", "1", "2"];
    let n = [6usize, shrinks.len(), ems.len(), drops.len(), 3, 2];
    let k = h.pick(2, 4);
    let mut texts = prune_texts();
    texts.push(vec![]);
    for (j, samples) in texts.into_iter().enumerate() {
        for vi in 0..3 {
            for s in around(&n, k) {
                h.case(
                    || format!("what must hold after prune through the program: vocabulary {}, samples {:?}, option values {:?}", vi, samples, s),
                    |h| {
                        let vocab = vocabs(s[4]).swap_remove(vi);
                        let size = [vocab.len() - 2, 0, 11, vocab.len() - 1, vocab.len(), 1000][s[0]];
                        let r = PruneRun { p: Prune { size, shrink: shrinks[s[1]], em: ems[s[2]] }, drop: drops[s[3]], parts: 1 };
                        let f = File { special: vec![], procs: vec![], vocab: vocab.clone() };
                        let w = W::new(h, [2, 8][s[5]])?;
                        let a = prune_args(&w, &r, &f, &samples)?;
                        let o = w
                            .go(&a)
                            .and_then(|_| File::read(&w.f("o.json")))
                            .and_then(|o| check_pruned(&vocab, &r.p, &o.tokens()).map(|_| o))
                            .map_err(|e| format!("{} of {:?}: {}", w.short(&a), f, e))?;
                        let runs = w.runs.get();
                        done(h, runs, &(j, vi, &s), o.vocab.len());
                        Ok(())
                    },
                );
            }
        }
    }
}

// ------------------------------------------------------------------ filter

pub fn filter(h: &mut H) {
    let mut vs: Vec<Vec<T>> = vec![];
    let sc = [-1.0, -2.5, -2.0, -3.0];
    for m in 0..16usize {
        // every assignment of marks to four tokens
        vs.push((0..4).map(|i| T { b: vec![b'a' + i as u8], s: sc[i], keep: m >> i & 1 == 1 }).collect());
    }
    for perm in [[3usize, 2, 1, 0], [1, 0, 3, 2]] {
        vs.push(perm.iter().enumerate().map(|(i, &x)| T { b: vec![0xc0 + i as u8, b'x'], s: sc[x], keep: i == 0 }).collect());
    }
    vs.push(vec![]);
    let mins = [None, Some(-0.5), Some(-2.0), Some(-2.25), Some(-10.0), Some(0.0)];
    let forces = [None, Some(true), Some(false)];
    for (vi, v) in vs.into_iter().enumerate() {
        for size in [None, Some(0usize), Some(1), Some(2), Some(3), Some(4), Some(9)] {
            h.case(
                || format!("filter through the program: vocabulary {:?}, size {:?}, {} minima, with and without force", v, size, mins.len()),
                |h| {
                    for (mi, min) in mins.iter().enumerate() {
                        for force in forces {
                            if h.quick() && vi >= 2 && vi < 16 && (mi + vi + force.map_or(0, |f| 1 + f as usize)) % 3 != 0 {
                                continue;
                            }
                            let f = File { special: strs(&["<s>"]), procs: strs(&["crlf", "nfc"]), vocab: v.clone() };
                            let w = W::new(h, 2)?;
                            f.write(&w.f("i.json"))?;
                            let mut a = strs(&["filter"]);
                            flag(&mut a, "-i", w.f("i.json"));
                            flag(&mut a, "-o", w.f("o.json"));
                            if let Some(s) = size {
                                flag(&mut a, "-v", s);
                            }
                            if let Some(m) = min {
                                flag(&mut a, "--min-score", m);
                            }
                            if let Some(x) = force {
                                flag(&mut a, "--force", x);
                            }
                            let check = |o: &File| -> Res {
                                same_frame(o, &f.special, &f.procs)?;
                                let limit = size.unwrap_or(0);
                                if v.len() <= limit {
                                    return if o.vocab == v { Ok(()) } else { Err(format!("a vocabulary within the limit became {:?}", o.vocab)) };
                                }
                                // scores are distinct: one result is right
                                let mut s = v.clone();
                                s.sort_by(|a, b| b.s.partial_cmp(&a.s).unwrap());
                                let mut room = v.len() - limit;
                                let mut want: Vec<T> = vec![];
                                for t in s.iter().rev() {
                                    if room > 0 && min.map_or(false, |m| t.s < m) && (force == Some(true) || !t.keep) {
                                        room -= 1;
                                    } else {
                                        want.insert(0, t.clone());
                                    }
                                }
                                if o.vocab == want { Ok(()) } else { Err(format!("the result is {:?}, expected {:?}", o.vocab, want)) }
                            };
                            let o = w.go(&a).and_then(|_| File::read(&w.f("o.json"))).and_then(|o| check(&o).map(|_| o)).map_err(|e| format!("{} of {:?}: {}", w.short(&a), v, e))?;
                            let runs = w.runs.get();
                            done(h, runs, &(vi, size, mi, force), o.vocab.len());
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

// ------------------------------------------------------------------- merge

fn merge_args(w: &W, m: &Merge, parts: usize, f: &File, samples: &[String]) -> Result<Vec<String>, String> {
    f.write(&w.f("i.json"))?;
    let mut a = strs(&["merge"]);
    flag(&mut a, "-i", w.f("i.json"));
    flag(&mut a, "-o", w.f("o.json"));
    a.extend(w.sources(samples, parts)?);
    flag(&mut a, "--allow", w.put("allow", m.allow.as_bytes())?);
    flag(&mut a, "--num-merges", m.num);
    flag(&mut a, "--step", m.step);
    flag(&mut a, "--scale-factor", m.scale);
    flag(&mut a, "--max-token-length", m.max_len);
    Ok(a)
}

fn merge_check(m: &Merge, f: &File, samples: &[String], o: &File) -> Result<bool, String> {
    same_frame(o, &f.special, &f.procs)?;
    check_merged(m, &f.vocab, &processed(&f.procs, samples), &o.tokens(), &|b| o.vocab.iter().position(|t| t.b == b).map(|i| i as u32))
}

pub fn merge(h: &mut H) {
    let allows = ["^(?s:.)*$", "^[ab]+$", "^ ?[a-z]+$", "a"];
    let nums = [5usize, 0, 1, 2, 50];
    let steps = [1usize, 2, 3, 100];
    let scales = [0.9, 0.5, 1.0, 1.25];
    let lens = [24usize, 2, 3, 1];
    let procs = [strs(&[]), strs(&["crlf"]), strs(&["nfd"]), strs(&["crlf", "nfc"])];
    let n = [allows.len(), nums.len(), steps.len(), scales.len(), lens.len(), procs.len(), 3, 3];
    let k = h.pick(2, 4);
    for (j, samples) in prune_texts().into_iter().enumerate() {
        for vi in 0..3 {
            for s in around(&n, k) {
                h.case(
                    || format!("merge through the program: vocabulary {}, samples {:?}, option values {:?}", vi, samples, s),
                    |h| {
                        let m = Merge { allow: allows[s[0]], num: nums[s[1]], step: steps[s[2]], scale: scales[s[3]], max_len: lens[s[4]] };
                        let f = File { special: strs(&["</s>", "ab"]), procs: procs[s[5]].clone(), vocab: vocabs(1).swap_remove(vi) };
                        let w = W::new(h, [2, 1, 8][s[7]])?;
                        let a = merge_args(&w, &m, [1, 2, 3][s[6]], &f, &samples)?;
                        let (o, sure) = w
                            .go(&a)
                            .and_then(|_| File::read(&w.f("o.json")))
                            .and_then(|o| merge_check(&m, &f, &samples, &o).map(|s| (o, s)))
                            .map_err(|e| format!("{} of {:?}: {}", w.short(&a), f, e))?;
                        let runs = w.runs.get();
                        done(h, runs, &(j, vi, &s), o.vocab.len());
                        if !sure {
                            h.count("ambiguous_skipped", 1);
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

// -------------------------------------------------------------------- mine

type Matcher = fn(&str) -> Option<usize>;

fn lead(s: &str, max: usize, f: fn(char) -> bool) -> Option<usize> {
    let n: usize = s.chars().take_while(|c| f(*c)).take(max).map(|c| c.len_utf8()).sum();
    (n > 0).then_some(n)
}

/// Lists of patterns that never match at the same place, with the length of
/// the match at the start of a text.
fn pattern_lists() -> Vec<(Vec<&'static str>, Matcher)> {
    let word: Matcher = |s| lead(s, usize::MAX, |c| c.is_ascii_alphabetic());
    vec![
        (vec!["word"], word),
        (vec!["lowercase-word"], |s| lead(s, usize::MAX, |c| c.is_ascii_lowercase())),
        (vec!["short-number"], |s| lead(s, 3, |c| c.is_ascii_digit())),
        (vec!["any-char"], |s| s.chars().next().filter(|c| *c != '\n').map(|c| c.len_utf8())),
        (vec!["word", "short-number"], |s| lead(s, usize::MAX, |c| c.is_ascii_alphabetic()).or(lead(s, 3, |c| c.is_ascii_digit()))),
        (vec!["short-number", "é+", "lowercase-word"], |s| {
            lead(s, 3, |c| c.is_ascii_digit()).or(lead(s, usize::MAX, |c| c == 'é')).or(lead(s, usize::MAX, |c| c.is_ascii_lowercase()))
        }),
        (vec!["ab"], |s| s.starts_with("ab").then_some(2)),
        (vec!["aa", "b+"], |s| if s.starts_with("aa") { Some(2) } else { lead(s, usize::MAX, |c| c == 'b') }),
        (vec!["zzz"], |s| s.starts_with("zzz").then_some(3)),
    ]
}

fn found(f: Matcher, samples: &[String]) -> BTreeMap<String, usize> {
    let mut out = BTreeMap::new();
    for s in samples {
        let mut i = 0;
        while i < s.len() {
            match if s.is_char_boundary(i) { f(&s[i..]) } else { None } {
                Some(n) => {
                    *out.entry(s[i..i + n].to_string()).or_insert(0) += 1;
                    i += n;
                }
                None => i += 1,
            }
        }
    }
    out
}

fn mine_args(w: &W, n: usize, pats: &[&str], parts: usize, samples: &[String]) -> Result<Vec<String>, String> {
    let mut a = strs(&["mine"]);
    flag(&mut a, "-n", n);
    flag(&mut a, "-o", w.f("o.json"));
    a.extend(w.sources(samples, parts)?);
    for p in pats {
        flag(&mut a, "-p", p);
    }
    Ok(a)
}

fn mine_check(w: &W, want: &BTreeMap<String, usize>, n: usize) -> Result<usize, String> {
    let got: Vec<String> = serde_json::from_slice(&std::fs::read(w.f("o.json")).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let got: Vec<(String, usize)> = got.into_iter().map(|t| { let c = want.get(&t).copied().unwrap_or(0); (t, c) }).collect();
    if let Some((t, _)) = got.iter().find(|x| x.1 == 0) {
        return Err(format!("{:?} is reported and never matches", t));
    }
    check_mined(want, n, &got)?;
    Ok(got.len())
}

fn mine_texts() -> Vec<Vec<String>> {
    vec![
        strs(&["ab aab 12", "é1234 ab", "", "b\nbb Ab é"]),
        strs(&["aaaa", "aab", "abab\r\nab"]),
        (0..29).map(|i| format!("{}{} {}", ["ab", "b", "aab", "Ab"][i % 4], ["", "é", "éé"][i % 3], 7 * i)).collect(),
        vec![],
    ]
}

pub fn mine(h: &mut H) {
    let ns = [100usize, 0, 1, 2, 3, 4, 5, 7];
    for (j, samples) in mine_texts().into_iter().enumerate() {
        for (li, (pats, f)) in pattern_lists().into_iter().enumerate() {
            for parts in 1..=3 {
                h.case(
                    || format!("mine through the program: patterns {:?} in {:?}, {} files, {} values of n", pats, samples, parts, ns.len()),
                    |h| {
                        let want = found(f, &samples);
                        for n in ns {
                            for threads in if h.quick() { vec![[2, 1, 8][(n + li) % 3]] } else { vec![1, 2, 8] } {
                                let w = W::new(h, threads)?;
                                let a = mine_args(&w, n, &pats, parts, &samples)?;
                                let k = w.go(&a).and_then(|_| mine_check(&w, &want, n)).map_err(|e| format!("{}: {}", w.short(&a), e))?;
                                let runs = w.runs.get();
                                done(h, runs, &(j, li, n, parts, threads), k);
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------- all of them together

/// The four commands on n samples; each result against the reference.
fn all_four(h: &mut H, n: usize, threads: usize, parts: usize, samples: &[String], log: bool) -> Res {
    {
        let mut w = W::new(h, threads)?;
        w.log = log;
        let r = GenRun {
            size: 300,
            special: vec![],
            procs: vec![],
            added: vec![strs(&["abab"])],
            suggested: vec![strs(&["bb", "zz"])],
            g: Gen { max_len: 6, split: None, allow: Some(leak("^[ab ]+$")), added: strs(&["abab"]), suggested: strs(&["bb", "zz"]) },
            p: Some("1"),
            parts,
        };
        let a = gen_args(&w, &r, samples)?;
        w.go(&a).and_then(|_| File::read(&w.f("o.json"))).and_then(|o| gen_check(&r, samples, &o)).map_err(|e| format!("{}: {}", w.short(&a), e))?;
    }
    {
        let mut w = W::new(h, threads)?;
        w.log = log;
        let want = found(|s| lead(s, usize::MAX, |c| c.is_ascii_alphabetic()), samples);
        let a = mine_args(&w, 4, &["word"], parts, samples)?;
        w.go(&a).and_then(|_| mine_check(&w, &want, 4)).map_err(|e| format!("{}: {}", w.short(&a), e))?;
    }
    {
        let mut w = W::new(h, threads)?;
        w.log = log;
        let f = File { vocab: vocabs(0).swap_remove(1), ..Default::default() };
        let m = Merge { allow: "^[ab ]+$", num: 4, step: 2, scale: 0.9, max_len: 8 };
        let a = merge_args(&w, &m, parts, &f, samples)?;
        w.go(&a).and_then(|_| File::read(&w.f("o.json"))).and_then(|o| merge_check(&m, &f, samples, &o)).map_err(|e| format!("{}: {}", w.short(&a), e))?;
    }
    {
        let mut w = W::new(h, threads)?;
        w.log = log;
        let f = File { vocab: vocabs(0).swap_remove(1), ..Default::default() };
        let r = PruneRun { p: Prune { size: 13, shrink: 0.9, em: 2 }, drop: "0", parts };
        let a = prune_args(&w, &r, &f, samples)?;
        let want = pruned_with(&f.vocab, &processed(&[], samples), &r.p, false);
        w.go(&a)
            .and_then(|_| File::read(&w.f("o.json")))
            .and_then(|o| {
                check_pruned(&f.vocab, &r.p, &o.tokens())?;
                match &want {
                    Some(v) if !samples.is_empty() => same_vocab(v, &o.tokens()),
                    _ => Ok(()),
                }
            })
            .map_err(|e| format!("{}: {}", w.short(&a), e))?;
    }
    done(h, 4, &(n, threads, parts), 4 * n);
    Ok(())
}

fn numbered(n: usize) -> Vec<String> {
    (0..n).map(|i| ["ab", "b a", "aba", "bb ab", "a", "é ba"][i % 6].to_string() + &"ba".repeat(i % 5 % 3)).collect()
}

pub fn threads(h: &mut H) {
    let ns: Vec<usize> = (0..=h.pick(20, 70)).chain([64, 100, 257]).collect();
    for n in ns {
        for threads in [1usize, 2, 3, 8, 32] {
            for parts in if h.quick() { vec![1 + n % 3] } else { vec![1, 2, 3] } {
                h.case(|| format!("all four training commands through the program on {} samples in {} files with {} threads", n, parts, threads), |h| all_four(h, n, threads, parts, &numbered(n), false));
            }
        }
    }
}

pub fn ends(h: &mut H) {
    let mut ns: Vec<usize> = (0..=h.pick(6, 40)).collect();
    ns.extend([65, 129, 1000, 1025, 4097, 16_385]);
    ns.extend(if h.quick() { vec![] } else { vec![32_769, 65_535, 65_537, 100_001, 140_000] });
    for n in ns {
        for threads in [1usize, 2, 5, 16, 64] {
            h.case(|| format!("every training command through the program ends, with {} samples and {} threads", n, threads), |h| all_four(h, n, threads, 1, &numbered(n), n % 2 == 0));
        }
    }
}

// -------------------------------------------------------------- processors

/// Every list of processors: the training commands see the samples as the
/// processors leave them, and write the list they were given.
pub fn processors(h: &mut H) {
    let names = strs(&["crlf", "nfc", "nfd", "nfkc", "nfkd"]);
    let samples = strs(&["e\u{301}x\r\n", "éx\n", "\u{1e9b}\u{323}\u{fb01}", "\u{1100}\u{1161}\u{11a8}각\r\r\n\n", "\u{2460}\u{212b}\r\n\r\n\r", "a\u{323}\u{307}a\u{307}\u{323}", "\u{958}\u{2126}\u{ff21}", "\r", "\u{fdfa}\r\n"]);
    for list in seqs(&names, 0, h.pick(3, 4)) {
        h.case(
            || format!("generate and merge through the program with processors {:?}", list),
            |h| {
                let r = GenRun {
                    size: 100_000,
                    special: strs(&["e\u{301}", "\r\n"]),
                    procs: list.clone(),
                    added: vec![strs(&["e\u{301}", "\r\n", "\u{fb01}"])],
                    suggested: vec![strs(&["\u{2126}\u{ff21}"])],
                    g: Gen { max_len: 9, split: None, allow: None, added: strs(&["e\u{301}", "\r\n", "\u{fb01}"]), suggested: strs(&["\u{2126}\u{ff21}"]) },
                    p: Some("1"),
                    parts: 2,
                };
                let w = W::new(h, 2)?;
                let a = gen_args(&w, &r, &samples)?;
                let o = w.go(&a).and_then(|_| File::read(&w.f("o.json"))).and_then(|o| gen_check(&r, &samples, &o).map(|_| o)).map_err(|e| format!("{}: {}", w.short(&a), e))?;
                let m = Merge { allow: "^(?s:.)*$", num: 6, step: 3, scale: 0.9, max_len: 6 };
                let vocab: Vec<T> = (0..=255u8).map(|b| T { b: vec![b], s: -3.0 - ((b as u32 * 40503 + 12345) % 65521) as f64 / 32768.0, keep: true }).collect();
                let f = File { special: strs(&["\r\n", "é"]), procs: list.clone(), vocab };
                let a = merge_args(&w, &m, 2, &f, &samples)?;
                w.go(&a).and_then(|_| File::read(&w.f("o.json"))).and_then(|o| merge_check(&m, &f, &samples, &o)).map_err(|e| format!("{} of a vocabulary of all bytes: {}", w.short(&a), e))?;
                let runs = w.runs.get();
                done(h, runs, &list, o.vocab.len());
                Ok(())
            },
        );
    }
}
