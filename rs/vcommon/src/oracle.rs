//! Boring reference implementations.

/// A base token of the reference model.
#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub b: Vec<u8>,
    pub s: f64,
    pub keep: bool,
}

pub fn t(b: &[u8], s: f64) -> T {
    T { b: b.to_vec(), s, keep: false }
}

/// Best total score over all segmentations of `text`, None if there is none.
/// Works backwards from the end (the implementation goes forwards).
pub fn best(vocab: &[T], text: &[u8]) -> Option<f64> {
    let n = text.len();
    let mut best: Vec<Option<f64>> = vec![None; n + 1];
    best[n] = Some(0.0);
    for i in (0..n).rev() {
        for t in vocab {
            if t.b.is_empty() || !text[i..].starts_with(&t.b) {
                continue;
            }
            if let Some(r) = best[i + t.b.len()] {
                let c = t.s + r;
                if best[i].map_or(true, |b| c > b) {
                    best[i] = Some(c);
                }
            }
        }
    }
    best[0]
}

/// Check that `ids` is a best segmentation of `text` into base tokens.
pub fn check_best(vocab: &[T], text: &[u8], ids: &[u32]) -> Result<(), String> {
    let mut cat = vec![];
    let mut score = 0.0;
    for &i in ids {
        let t = vocab.get(i as usize).ok_or_else(|| format!("id {} is not a base token", i))?;
        cat.extend_from_slice(&t.b);
        score += t.s;
    }
    if cat != text {
        return Err(format!("the tokens {:?} spell {} instead of {}", ids, crate::hex(&cat), crate::hex(text)));
    }
    match best(vocab, text) {
        Some(b) if b == score => Ok(()),
        b => Err(format!("ids {:?} score {} but the best segmentation of {} scores {:?}", ids, score, crate::hex(text), b)),
    }
}

/// Encoding result against the specification: best segmentation or failure iff none.
pub fn check_encode(vocab: &[T], text: &[u8], r: &Result<Vec<u32>, String>) -> Result<(), String> {
    match r {
        Ok(ids) => check_best(vocab, text, ids),
        Err(e) => match best(vocab, text) {
            None => Ok(()),
            Some(b) => Err(format!("encoding {} failed ({}) although a segmentation with score {} exists", crate::hex(text), e, b)),
        },
    }
}

/// All segmentations of text as id lists.
pub fn segmentations(vocab: &[T], text: &[u8]) -> Vec<Vec<u32>> {
    fn go(v: &[T], t: &[u8], cur: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
        if t.is_empty() {
            out.push(cur.clone());
            return;
        }
        for (i, k) in v.iter().enumerate() {
            if !k.b.is_empty() && t.starts_with(&k.b) {
                cur.push(i as u32);
                go(v, &t[k.b.len()..], cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(vocab, text, &mut vec![], &mut out);
    out
}

#[derive(Debug, Clone, PartialEq)]
pub enum Piece {
    Text(String),
    Special(usize),
}

/// Split at special tokens: left to right, the first registered match wins.
pub fn split(text: &str, specials: &[String]) -> Vec<Piece> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut rest = text;
    'outer: while !rest.is_empty() {
        for (i, s) in specials.iter().enumerate() {
            if !s.is_empty() && rest.starts_with(s.as_str()) {
                if !cur.is_empty() {
                    out.push(Piece::Text(std::mem::take(&mut cur)));
                }
                out.push(Piece::Special(i));
                rest = &rest[s.len()..];
                continue 'outer;
            }
        }
        let c = rest.chars().next().unwrap();
        cur.push(c);
        rest = &rest[c.len_utf8()..];
    }
    if !cur.is_empty() {
        out.push(Piece::Text(cur));
    }
    out
}

pub fn crlf(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\r' && i + 1 < b.len() && b[i + 1] == '\n' {
            o.push('\n');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// Reference decoding.
pub fn decode(base: &[Vec<u8>], specials: &[String], ids: &[u32], include: bool) -> Result<String, Vec<u32>> {
    let n = base.len();
    let bad: Vec<u32> = ids.iter().copied().filter(|&i| i as usize >= n + specials.len()).collect();
    if !bad.is_empty() {
        return Err(bad);
    }
    let mut out = String::new();
    let mut buf: Vec<u8> = vec![];
    for &i in ids {
        let i = i as usize;
        if i < n {
            buf.extend_from_slice(&base[i]);
        } else {
            out.push_str(&String::from_utf8_lossy(&buf));
            buf.clear();
            if include {
                out.push_str(&specials[i - n]);
            }
        }
    }
    out.push_str(&String::from_utf8_lossy(&buf));
    Ok(out)
}
