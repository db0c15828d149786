//! C05: ids and tokens, after every history.
use crate::util::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Base(usize),
    Base2(usize, usize),
    Special(usize),
    Special2(usize, usize),
    Clone,
    /// go on with a clone; the original stays, and must stay as it is
    KeepOriginal,
    /// go on with the original; a clone stays, and must stay as it is
    KeepClone,
    Reload,
    SaveLoad,
    Inner,
}

const B: [&[u8]; 4] = [b"a", b"ab", &[0xff, 0x00], "é".as_bytes()];
const S: [&str; 4] = ["<s>", "a", "\n\"", "é"];

#[derive(Clone, Default)]
struct Ref {
    base: Vec<T>,
    sp: Vec<String>,
}

fn check_all(h: &mut H, tk: &Tokenizer, r: &Ref) -> std::result::Result<(), String> {
    h.traces += 1;
    let n = r.base.len();
    let m = r.sp.len();
    if tk.base_vocab_size() != n || tk.special_vocab_size() != m || tk.vocab_size() != n + m || tk.model().vocab_size() != n {
        return Err(format!("sizes {} + {} = {}, expected {} + {}", tk.base_vocab_size(), tk.special_vocab_size(), tk.vocab_size(), n, m));
    }
    if tk.special_tokens() != r.sp {
        return Err(format!("special tokens {:?}, expected {:?}", tk.special_tokens(), r.sp));
    }
    let vocab: Vec<(Vec<u8>, f64, bool)> = tk.model().vocab().iter().map(|t| (t.value.clone(), t.score, t.keep)).collect();
    let want: Vec<(Vec<u8>, f64, bool)> = r.base.iter().map(|t| (t.b.clone(), t.s, t.keep)).collect();
    if vocab != want {
        return Err(format!("base tokens {:?}, expected {:?}", vocab, want));
    }
    let total = (n + m) as u32;
    for id in (0..total + 3).chain([255, 256, 65535, 65536, u32::MAX - n as u32, u32::MAX - 1, u32::MAX]) {
        h.trans += 1;
        let i = id as usize;
        let base = i < n;
        let special = i >= n && i < n + m;
        let e = |what: &str, got: String| Err(format!("id {} of {} base + {} special tokens: {} gives {}", id, n, m, what, got));
        // is_base/is_special on ids outside the vocabulary: absent
        if tk.is_base(id) != base {
            return e("is_base", tk.is_base(id).to_string());
        }
        if tk.is_special(id) != special {
            return e("is_special", tk.is_special(id).to_string());
        }
        let wt = if base { Some(r.base[i].b.clone()) } else if special { Some(r.sp[i - n].as_bytes().to_vec()) } else { None };
        if tk.id_to_token(id) != wt {
            return e("id_to_token", format!("{:?}", tk.id_to_token(id)));
        }
        let wb = if base { Some((r.base[i].b.clone(), r.base[i].s, r.base[i].keep)) } else { None };
        let gb = tk.id_to_base_token(id).map(|t| (t.value.clone(), t.score, t.keep));
        if gb != wb {
            return e("id_to_base_token", format!("{:?}", gb));
        }
        let gm = tk.model().id_to_token(id).map(|t| (t.value.clone(), t.score, t.keep));
        if gm != wb {
            return e("model id_to_token", format!("{:?}", gm));
        }
        let ws = if special { Some(r.sp[i - n].clone()) } else { None };
        if tk.id_to_special_token(id) != ws {
            return e("id_to_special_token", format!("{:?}", tk.id_to_special_token(id)));
        }
        let d = catch(|| es(tk.decode(&[id], true)))?;
        match (&wt, d) {
            (Some(b), Ok(s)) => {
                if s != String::from_utf8_lossy(b) {
                    return e("decode", format!("{:?}", s));
                }
            }
            (None, Err(_)) => {}
            (_, d) => return e("decode", format!("{:?}", d)),
        }
    }
    for (i, t) in r.base.iter().enumerate() {
        if tk.base_token_to_id(&t.b) != Some(i as u32) || tk.token_to_id(&t.b) != Some(i as u32) || tk.model().token_to_id(&t.b) != Some(i as u32) {
            return Err(format!("token {} has id {:?} / {:?} / {:?}, expected {}", hex(&t.b), tk.base_token_to_id(&t.b), tk.token_to_id(&t.b), tk.model().token_to_id(&t.b), i));
        }
        // what encode emits: the token alone, when it is text and not special
        if let Ok(s) = std::str::from_utf8(&t.b) {
            let r2 = es(tk.encode_ordinary(s, 0.0));
            oracle::check_encode(&r.base, s.as_bytes(), &r2)?;
        }
    }
    for (i, s) in r.sp.iter().enumerate() {
        let id = (n + i) as u32;
        if tk.special_token_to_id(s) != Some(id) {
            return Err(format!("special token {:?} has id {:?}, expected {}", s, tk.special_token_to_id(s), id));
        }
        let is_base = r.base.iter().any(|t| t.b == s.as_bytes());
        if !is_base && tk.token_to_id(&s.as_bytes().to_vec()) != Some(id) {
            return Err(format!("token_to_id({:?}) = {:?}, expected {}", s, tk.token_to_id(&s.as_bytes().to_vec()), id));
        }
        let x = es(tk.encode(s, 0.0));
        check_full_encode(&r.base, &[], &r.sp, s, &x)?;
    }
    for b in B {
        if !r.base.iter().any(|t| t.b == b) {
            let sp = std::str::from_utf8(b).ok().and_then(|s| r.sp.iter().position(|x| x == s)).map(|i| (n + i) as u32);
            if tk.base_token_to_id(&b.to_vec()).is_some() || tk.model().token_to_id(&b.to_vec()).is_some() || tk.token_to_id(&b.to_vec()) != sp {
                return Err(format!("absent base token {} found: {:?}, {:?}", hex(b), tk.base_token_to_id(&b.to_vec()), tk.token_to_id(&b.to_vec())));
            }
        }
    }
    for s in S {
        if !r.sp.iter().any(|x| x == s) && tk.special_token_to_id(s).is_some() {
            return Err(format!("absent special token {:?} has id {:?}", s, tk.special_token_to_id(s)));
        }
    }
    for s in ["", "nope", "<S>"] {
        if tk.special_token_to_id(s).is_some() || tk.token_to_id(&s.as_bytes().to_vec()).is_some() {
            return Err(format!("absent token {:?} found", s));
        }
    }
    Ok(())
}

fn st(i: usize) -> T {
    T { b: B[i].to_vec(), s: dyadic(i), keep: i % 2 == 0 }
}

fn apply(h: &H, tk: &mut Tokenizer, r: &mut Ref, kept: &mut Vec<(Tokenizer, Ref)>, op: Op) -> std::result::Result<bool, String> {
    match op {
        Op::Base(i) => {
            if r.base.iter().any(|t| t.b == B[i]) {
                return Ok(false);
            }
            tk.add_base_tokens(toks(&[st(i)]));
            r.base.push(st(i));
        }
        Op::Base2(i, j) => {
            if r.base.iter().any(|t| t.b == B[i] || t.b == B[j]) {
                return Ok(false);
            }
            tk.add_base_tokens(toks(&[st(i), st(j)]));
            r.base.push(st(i));
            r.base.push(st(j));
        }
        Op::Special(i) => {
            tk.add_special_tokens([S[i]]);
            if !r.sp.iter().any(|s| s == S[i]) {
                r.sp.push(S[i].into());
            }
        }
        Op::Special2(i, j) => {
            tk.add_special_tokens(vec![S[i].to_string(), S[j].to_string(), S[i].to_string()]);
            for k in [i, j] {
                if !r.sp.iter().any(|s| s == S[k]) {
                    r.sp.push(S[k].into());
                }
            }
        }
        Op::Clone => {
            let c = tk.clone();
            // changing the original afterwards must not reach the clone
            tk.add_special_tokens(["<zz>"]);
            tk.add_base_tokens(toks(&[oracle::t(b"zz", -1.0)]));
            *tk = c;
        }
        Op::KeepOriginal => {
            let c = tk.clone();
            kept.push((std::mem::replace(tk, c), r.clone()));
        }
        Op::KeepClone => kept.push((tk.clone(), r.clone())),
        Op::Reload => {
            let s = tk.to_string();
            *tk = s.parse::<Tokenizer>().map_err(|e| format!("reload of {}: {}", s, e))?;
        }
        Op::SaveLoad => {
            let p = format!("{}/t.json", h.scratch);
            tk.save(&p).map_err(|e| e.to_string())?;
            *tk = es(Tokenizer::from_file(&p))?;
        }
        Op::Inner => {
            let (m, p, s) = tk.clone().into_inner();
            *tk = Tokenizer::new(m, p, s);
        }
    }
    Ok(true)
}

pub fn run(h: &mut H) {
    let mut ops = vec![];
    for i in 0..4 {
        ops.push(Op::Base(i));
    }
    for i in 0..4 {
        ops.push(Op::Special(i));
    }
    ops.extend([Op::Base2(1, 3), Op::Special2(0, 1), Op::Special2(3, 0), Op::Clone, Op::KeepOriginal, Op::KeepClone, Op::Reload, Op::SaveLoad, Op::Inner]);
    let _ = std::fs::create_dir_all(&h.scratch);
    let depth = h.pick(4, 5);
    // prefix of two operations per case; the rest explored inside, every
    // history replayed from the start on a fresh tokenizer
    for (ci, ctor) in [0usize, 1, 2].into_iter().enumerate() {
        for pre in seqs(&ops, 2, 2) {
            h.case(
                || format!("constructor variant {}, histories of at most {} operations starting with {:?} out of {:?}", ctor, depth, pre, ops),
                |h| {
                    let _ = std::fs::create_dir_all(&h.scratch);
                    // looked at after every operation (what is computed when first asked
                    // for must not go stale) or only at the end
                    for (watch, rest) in [false, true].into_iter().flat_map(|w| seqs(&ops, 0, depth - 2).into_iter().map(move |r| (w, r))) {
                        let mut r = Ref::default();
                        let mut tk = match ctor {
                            0 => Tokenizer::new(Model::default(), Vec::<ProcessorWrapper>::new(), Vec::<String>::new()),
                            1 => {
                                r.base = vec![st(3), st(0)];
                                r.sp = strs(&["é", "<s>"]);
                                Tokenizer::new(model(&r.base), Vec::<ProcessorWrapper>::new(), ["é", "<s>", "é"])
                            }
                            _ => {
                                r.base = vec![st(2)];
                                r.sp = strs(&["a"]);
                                tokenizer(&r.base, &[], &r.sp)
                            }
                        };
                        let mut ok = true;
                        let mut kept = vec![];
                        for op in pre.iter().chain(&rest) {
                            ok = apply(h, &mut tk, &mut r, &mut kept, *op)?;
                            h.trans += 1;
                            if !ok {
                                break;
                            }
                            if watch {
                                check_all(h, &tk, &r).map_err(|e| format!("during {:?} {:?}, looked at after each: {}", pre, rest, e))?;
                            }
                        }
                        if !ok {
                            continue;
                        }
                        h.state(&(ci, &r.base.iter().map(|t| t.b.clone()).collect::<Vec<_>>(), &r.sp, rest.last().map(|o| format!("{:?}", o))));
                        check_all(h, &tk, &r).map_err(|e| format!("after {:?} {:?}: {}", pre, rest, e))?;
                        for (k, kr) in &kept {
                            check_all(h, k, kr).map_err(|e| format!("a copy made and kept during {:?} {:?}: {}", pre, rest, e))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // sizes
    for n in [0usize, 1, 2, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537] {
        for m in [0usize, 1, 2, 255, 256, 257] {
            h.case(
                || format!("{} base and {} special tokens", n, m),
                |h| {
                    let base: Vec<T> = (0..n).map(|i| oracle::t(format!("t{}", i).as_bytes(), -1.0 - i as f64)).collect();
                    let sp: Vec<String> = (0..m).map(|i| format!("<{}>", i)).collect();
                    let mut tk = tokenizer(&base[..n / 2], &[], &sp[..m / 2]);
                    tk.add_base_tokens(toks(&base[n / 2..]));
                    tk.add_special_tokens(&sp);
                    for i in (0..n).step_by(1 + n / 300).chain(n.saturating_sub(3)..n) {
                        h.trans += 1;
                        let id = i as u32;
                        if tk.id_to_token(id).as_ref() != Some(&base[i].b) || tk.token_to_id(&base[i].b) != Some(id) || tk.base_token_to_id(&base[i].b) != Some(id) || !tk.is_base(id) || tk.is_special(id) {
                            return Err(format!("base id {}: {:?} / {:?}", id, tk.id_to_token(id), tk.token_to_id(&base[i].b)));
                        }
                    }
                    for i in 0..m {
                        let id = (n + i) as u32;
                        h.trans += 1;
                        if tk.id_to_special_token(id).as_ref() != Some(&sp[i]) || tk.special_token_to_id(&sp[i]) != Some(id) || tk.is_base(id) || !tk.is_special(id) || tk.id_to_token(id) != Some(sp[i].as_bytes().to_vec()) {
                            return Err(format!("special id {}: {:?} / {:?}", id, tk.id_to_special_token(id), tk.special_token_to_id(&sp[i])));
                        }
                    }
                    for id in [(n + m) as u32, (n + m) as u32 + 1, (n + m) as u32 + 256, u32::MAX] {
                        if tk.id_to_token(id).is_some() || tk.is_base(id) || tk.is_special(id) || catch(|| tk.decode(&[id], true).is_ok())? {
                            return Err(format!("id {} outside the vocabulary is reported present", id));
                        }
                    }
                    h.traces += 1;
                    h.state(&("n", n, m));
                    Ok(())
                },
            );
        }
    }
    // many tokens: wherever tokens are found by something shorter than themselves
    // (a hash of 32 bits, a prefix), some of these get in each other's way
    for special in [false, true] {
        for style in 0..3usize {
            h.case(
                || format!("{} {} tokens, {}", 250_000, if special { "special" } else { "base" }, ["8 pseudo-random bytes (ASCII)", "numbered", "the same 40 letters before and after a number"][style]),
                |h| {
                    let word = |i: u64| match style {
                        0 => {
                            let x = (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                            (0..8).map(|k| (b'0' + (x >> (k * 8)) as u8 % 75) as char).collect::<String>()
                        }
                        1 => format!("{}", i),
                        _ => format!("{}{:05}{}", "abcdefgh".repeat(5), i, "hgfedcba".repeat(5)),
                    };
                    let n: u64 = if style == 2 { 20_000 } else { 250_000 };
                    let mut words: Vec<String> = (0..n).map(word).collect();
                    let mut seen = std::collections::HashSet::new();
                    words.retain(|w| seen.insert(w.clone()));
                    let base: Vec<T> = if special { vec![oracle::t(b"-", -1.0)] } else { words.iter().map(|w| oracle::t(w.as_bytes(), -1.0)).collect() };
                    let half = base.len() / 2;
                    let mut tk = tokenizer(&base[..half], &[], &[]);
                    tk.add_base_tokens(toks(&base[half..]));
                    if special {
                        tk.add_special_tokens(&words[..10]);
                        tk.add_special_tokens(&words);
                    }
                    let first = if special { 1 } else { 0 };
                    for (i, w) in words.iter().enumerate() {
                        let id = (first + i) as u32;
                        let b = w.as_bytes().to_vec();
                        h.trans += 1;
                        let (own, other) = if special { (tk.special_token_to_id(w), tk.base_token_to_id(&b)) } else { (tk.base_token_to_id(&b), tk.special_token_to_id(w)) };
                        if own != Some(id) || other.is_some() || tk.token_to_id(&b) != Some(id) || tk.id_to_token(id) != Some(b) {
                            return Err(format!("token {} ({:?}): {:?}", id, w, own));
                        }
                    }
                    if tk.vocab_size() != first + words.len() {
                        return Err(format!("{} tokens of {}", tk.vocab_size(), first + words.len()));
                    }
                    h.traces += 1;
                    h.state(&("many", special, style));
                    Ok(())
                },
            );
        }
    }
    // copies and drops of tokenizers with long tokens, on the stack of a worker thread
    for len in [1000usize, 10_000, 65_536, 200_000, 1_000_000] {
        for way in 0..3 {
            h.case(
                || format!("a base token of {} bytes, {}", len, ["copied", "copied twice, the copies extended", "the copy dropped first"][way]),
                |h| {
                    let run = move || -> std::result::Result<(), String> {
                        let long = vec![b'a'; len];
                        let (a, b) = (oracle::t(b"a", -1.0), oracle::t(b"b", -2.0));
                        let tk = tokenizer(&[a, oracle::t(&long, -1.5)], &[], &strs(&["<s>"]));
                        let mut k = tk.clone();
                        if way == 1 {
                            k.add_base_tokens(toks(&[b]));
                            let mut l = k.clone();
                            l.add_special_tokens(["<t>"]);
                            if l.special_token_to_id("<t>") != Some(4) || k.special_token_to_id("<t>").is_some() {
                                return Err("a special token added to a copy has the wrong id or appears in the original".into());
                            }
                        }
                        let n = 2 + (way == 1) as u32;
                        if way == 2 {
                            drop(k);
                            k = tk.clone();
                        }
                        for (t, n) in [(&tk, 2), (&k, n)] {
                            if t.token_to_id(&long) != Some(1) || t.id_to_token(1) != Some(long.clone()) || t.special_token_to_id("<s>") != Some(n) || t.id_to_token(n).as_deref() != Some(b"<s>") {
                                return Err("ids of the copy".into());
                            }
                        }
                        Ok(())
                    };
                    std::thread::Builder::new().stack_size(2 << 20).spawn(run).unwrap().join().map_err(|_| "panicked".to_string())??;
                    h.traces += 1;
                    h.trans += 1;
                    h.state(&("long", len, way));
                    Ok(())
                },
            );
        }
    }
}
