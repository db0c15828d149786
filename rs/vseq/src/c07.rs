//! C07: failed saves and damaged files.
use crate::fault;
use crate::util::*;
use base64::Engine;
use serde_json::{json, Value};
use std::str::FromStr;

type R = std::result::Result<(), String>;

/// What a document says, read by a general JSON reader. None: must be rejected.
fn read_doc(doc: &[u8]) -> Option<(Vec<T>, Vec<String>, Vec<String>)> {
    let v: Value = serde_json::from_slice(doc).ok()?;
    let o = v.as_object()?;
    if o.keys().any(|k| !["version", "special_tokens", "processors", "vocab"].contains(&k.as_str())) || o.get("version")?.as_str()? != "2.0" {
        return None;
    }
    let empty = json!([]);
    let mut vocab = vec![];
    for t in o.get("vocab").unwrap_or(&empty).as_array()? {
        let t = t.as_object()?;
        if t.keys().any(|k| !["value", "score", "encoded", "keep"].contains(&k.as_str())) {
            return None;
        }
        let flag = |k: &str| match t.get(k) {
            None => Some(false),
            Some(b) => b.as_bool(),
        };
        let val = t.get("value")?.as_str()?;
        let b = if flag("encoded")? { base64_ref(val)? } else { val.as_bytes().to_vec() };
        vocab.push(T { b, s: t.get("score")?.as_f64()?, keep: flag("keep")? });
    }
    let mut ps = vec![];
    for p in o.get("processors").unwrap_or(&empty).as_array()? {
        let p = p.as_object()?;
        ps.push(match p.get("type")?.as_str()? {
            "crlf" => "crlf".to_string(),
            "unicode" => p.get("form")?.as_str().filter(|f| ["nfc", "nfd", "nfkc", "nfkd"].contains(f))?.to_string(),
            _ => return None,
        });
    }
    let mut sp: Vec<String> = vec![];
    for s in o.get("special_tokens").unwrap_or(&empty).as_array()? {
        let s = s.as_str()?.to_string();
        if !sp.contains(&s) {
            sp.push(s);
        }
    }
    Some((vocab, ps, sp))
}

/// Base64 without padding; padding and loose last bits are tolerated here
/// (an implementation may reject them or give these bytes).
fn base64_ref(s: &str) -> Option<Vec<u8>> {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let t = s.trim_end_matches('=');
    if s.len() - t.len() > 2 || t.len() % 4 == 1 {
        return None;
    }
    let mut bits = 0u32;
    let mut n = 0;
    let mut out = vec![];
    for c in t.bytes() {
        bits = bits << 6 | A.iter().position(|a| *a == c)? as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((bits >> n) as u8);
            bits &= (1 << n) - 1;
        }
    }
    Some(out)
}

fn names(tk: &Tokenizer) -> Vec<String> {
    tk.processors()
        .iter()
        .map(|p| {
            match p {
                ProcessorWrapper::Crlf(_) => "crlf",
                ProcessorWrapper::Unicode(UnicodeProcessor::Nfc) => "nfc",
                ProcessorWrapper::Unicode(UnicodeProcessor::Nfd) => "nfd",
                ProcessorWrapper::Unicode(UnicodeProcessor::Nfkc) => "nfkc",
                ProcessorWrapper::Unicode(UnicodeProcessor::Nfkd) => "nfkd",
            }
            .to_string()
        })
        .collect()
}

fn content(tk: &Tokenizer) -> (Vec<T>, Vec<String>, Vec<String>) {
    (tk.model().vocab().iter().map(|t| T { b: t.value.clone(), s: t.score, keep: t.keep }).collect(), names(tk), tk.special_tokens())
}

/// Load a document (from a file too if asked): no panic, and if it is accepted
/// it is accepted as what it says.
fn load(h: &mut H, doc: &[u8], by_file: bool, must_fail: bool) -> R {
    let want = read_doc(doc);
    let mut rs = vec![];
    if let Ok(s) = std::str::from_utf8(doc) {
        rs.push(("string", catch(|| es(Tokenizer::from_str(s)))));
    }
    if by_file || rs.is_empty() {
        let p = format!("{}/doc.json", h.scratch);
        std::fs::write(&p, doc).map_err(|e| e.to_string())?;
        rs.push(("file", catch(|| es(Tokenizer::from_file(&p)))));
    }
    for (how, r) in rs {
        h.traces += 1;
        h.trans += 1;
        let show = || String::from_utf8_lossy(doc).chars().take(600).collect::<String>();
        match r {
            Err(p) => return Err(format!("loading from a {} {}: {}", how, p, show())),
            Ok(Err(_)) => {}
            Ok(Ok(tk)) => {
                let got = content(&tk);
                if must_fail {
                    return Err(format!("loaded from a {} although it must be rejected: {}", how, show()));
                }
                match &want {
                    None => return Err(format!("loaded from a {} although it must be rejected: {}", how, show())),
                    Some(w) if *w != got => return Err(format!("loaded from a {} as {:?} but it says {:?}: {}", how, got, w, show())),
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

/// A document that must load.
fn good(h: &mut H, doc: &[u8]) -> R {
    let s = std::str::from_utf8(doc).map_err(|e| e.to_string())?;
    let tk = Tokenizer::from_str(s).map_err(|e| format!("rejected ({}): {}", e, s))?;
    if Some(content(&tk)) != read_doc(doc) {
        return Err(format!("loaded as {:?}: {}", content(&tk), s));
    }
    load(h, doc, true, false)
}

fn tok(i: usize) -> Tokenizer {
    match i {
        0 => tokenizer(&[], &[], &[]),
        1 => tokenizer(&[T { b: b"a".to_vec(), s: -1.5, keep: true }, oracle::t(&[0xff, 0xfe], -2.0), oracle::t("é\"\\\n".as_bytes(), -3.25)], &["crlf", "nfkc"], &strs(&["<s>", "\n"])),
        2 => {
            let mut v = bytes_vocab();
            v.extend((0..100).map(|i| oracle::t(format!("tok{}", i).as_bytes(), dyadic(i))));
            tokenizer(&v, &["nfd"], &strs(&["<a>", "<b>"]))
        }
        _ => tokenizer(&(0..600).map(|i| oracle::t(format!("a longer token number {}", i).as_bytes(), dyadic(i))).collect::<Vec<_>>(), &[], &[]),
    }
}

fn mutate(v: &Value, f: &mut dyn FnMut(Value)) {
    // every tree obtained by changing one node
    let menu = || vec![json!(null), json!(true), json!(false), json!(0), json!(-1.5), json!(1e300), json!(""), json!("2.0"), json!("crlf"), json!("é"), json!([]), json!([[]]), json!({}), json!({"type": "crlf"}), json!({"value": "a", "score": 0}), json!(["a"]), json!([null])];
    for m in menu() {
        f(m);
    }
    match v {
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                f(Value::Array(b));
                let mut b = a.clone();
                b.insert(i, a[i].clone());
                f(Value::Array(b));
                for m in menu() {
                    let mut b = a.clone();
                    b.insert(i, m);
                    f(Value::Array(b));
                }
                mutate(&a[i], &mut |x| {
                    let mut b = a.clone();
                    b[i] = x;
                    f(Value::Array(b))
                });
            }
        }
        Value::Object(o) => {
            for k in o.keys() {
                let mut b = o.clone();
                b.remove(k);
                f(Value::Object(b));
                for k2 in ["", "x", "Version", "version", "vocab", "tokens", "value", "score", "keep", "encoded", "type", "form", "processors", "special_tokens", "specials"] {
                    let mut b = o.clone();
                    let x = b.remove(k).unwrap();
                    b.insert(k2.to_string(), x.clone());
                    f(Value::Object(b));
                    let mut b = o.clone();
                    b.insert(k2.to_string(), x);
                    f(Value::Object(b));
                }
                mutate(&o[k], &mut |x| {
                    let mut b = o.clone();
                    b.insert(k.clone(), x);
                    f(Value::Object(b))
                });
            }
        }
        Value::String(s) => {
            for x in [format!("{} ", s), format!(" {}", s), s.to_uppercase(), s.to_lowercase(), s.chars().skip(1).collect(), format!("{}0", s), format!("{}\u{0}", s)] {
                f(Value::String(x));
            }
        }
        _ => {}
    }
}

pub fn run(h: &mut H) {
    // A: saving under every script of faults
    for (ti, dev) in [(0usize, 4usize), (1, 4), (2, 3), (3, 2)] {
        for pre in 0..4 {
            {
                h.case(
                    || format!("saving tokenizer {} over {}, at most {} faults", ti, ["nothing", "a longer file", "an empty file", "a file of other bytes"][pre], dev),
                    |h| {
                        let tk = tok(ti);
                        let good = format!("{}/good.json", h.scratch);
                        tk.save(&good).map_err(|e| format!("save without faults fails: {}", e))?;
                        let doc = std::fs::read(&good).map_err(|e| e.to_string())?;
                        if read_doc(&doc) != Some(content(&tk)) {
                            return Err("the file saved without faults does not hold the tokenizer".into());
                        }
                        let p = format!("{}/t.json", h.scratch);
                        let out = std::cell::RefCell::new(None);
                        let cap = h.pick(20_000, 200_000);
                        let mut states = vec![];
                        let r = fault::explore(
                            dev,
                            cap,
                            |arm| {
                                let _ = std::fs::remove_file(&p);
                                match pre {
                                    1 => std::fs::write(&p, [&doc[..], b"]]]]]]]]]]]]]]]"].concat()).unwrap(),
                                    2 => std::fs::write(&p, b"").unwrap(),
                                    3 => std::fs::write(&p, vec![b' '; doc.len() + 10]).unwrap(),
                                    _ => {}
                                }
                                let mut res = None;
                                let r = catch(|| arm(&mut || res = Some(tk.save(&p).map_err(|e| e.to_string()))));
                                *out.borrow_mut() = Some(r.map(|_| res));
                            },
                            |tr| {
                                states.push(fault::show(tr));
                                let r = out.borrow_mut().take().unwrap();
                                let now = std::fs::read(&p).ok();
                                match r {
                                    Err(e) => Err(format!("save {} (calls: {})", e, fault::show(tr))),
                                    Ok(Some(Ok(()))) => {
                                        if fault::failed(tr) {
                                            return Err(format!("save returned success though a call failed (calls: {})", fault::show(tr)));
                                        }
                                        if now.as_deref() != Some(&doc[..]) {
                                            return Err(format!("save returned success but the file holds {} of {} bytes or others (calls: {})", now.map_or(0, |n| n.len()), doc.len(), fault::show(tr)));
                                        }
                                        Ok(())
                                    }
                                    Ok(Some(Err(e))) => {
                                        if tr.iter().all(|s| s.0 == 0) {
                                            return Err(format!("save failed without a fault: {}", e));
                                        }
                                        Ok(())
                                    }
                                    Ok(None) => Err("save did not return".into()),
                                }
                            },
                        )?;
                        for s in states {
                            h.state(&("A", ti, pre, s));
                        }
                        h.traces += r.0;
                        h.trans += r.1;
                        h.count("fault_schedules", r.0);
                        if !r.2 {
                            h.caps.push(format!("saving tokenizer {}: first {} fault schedules only", ti, cap));
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // places that cannot be written
    h.case(
        || "saving to a full device, a directory, a missing directory, an empty name".into(),
        |h| {
            for i in 0..4 {
                for p in ["/dev/full".to_string(), h.scratch.to_string(), format!("{}/no/such/dir/t.json", h.scratch), String::new(), format!("{}/good.json/x", h.scratch), format!("{}/{}", h.scratch, "n".repeat(300))] {
                    h.traces += 1;
                    match catch(|| tok(i).save(&p).is_ok()) {
                        Ok(true) => return Err(format!("saving tokenizer {} to {:?} reports success", i, p)),
                        Ok(false) => {}
                        Err(e) => return Err(format!("saving to {:?} {}", p, e)),
                    }
                    if p != "/dev/full" {
                        match catch(|| Tokenizer::from_file(&p).is_ok()) {
                            Ok(false) => {}
                            Ok(true) => return Err(format!("loading {:?} reports success", p)),
                            Err(e) => return Err(format!("loading {:?} {}", p, e)),
                        }
                    }
                }
            }
            Ok(())
        },
    );
    // B: loading under every script of faults
    for ti in 0..4 {
        h.case(
            || format!("loading tokenizer {} with short, interrupted and failing reads", ti),
            |h| {
                let tk = tok(ti);
                let p = format!("{}/t.json", h.scratch);
                tk.save(&p).map_err(|e| e.to_string())?;
                let want = content(&tk);
                let out = std::cell::RefCell::new(None);
                let mut states = vec![];
                let r = fault::explore(
                    4,
                    h.pick(20_000, 200_000),
                    |arm| {
                        let mut res = None;
                        let r = catch(|| arm(&mut || res = Some(es(Tokenizer::from_file(&p)))));
                        *out.borrow_mut() = Some(r.map(|_| res));
                    },
                    |tr| {
                        states.push(fault::show(tr));
                        match out.borrow_mut().take().unwrap() {
                            Err(e) => Err(format!("loading {} (calls: {})", e, fault::show(tr))),
                            Ok(Some(Ok(t))) => {
                                if content(&t) != want {
                                    return Err(format!("another tokenizer was loaded (calls: {})", fault::show(tr)));
                                }
                                Ok(())
                            }
                            Ok(Some(Err(e))) if tr.iter().all(|s| s.0 == 0) => Err(format!("loading failed without a fault: {}", e)),
                            Ok(Some(Err(_))) => Ok(()),
                            Ok(None) => Err("loading did not return".into()),
                        }
                    },
                )?;
                for s in states {
                    h.state(&("B", ti, s));
                }
                h.traces += r.0;
                h.trans += r.1;
                h.count("fault_schedules", r.0);
                if !r.2 {
                    h.caps.push(format!("loading tokenizer {}: not all fault schedules", ti));
                }
                Ok(())
            },
        );
    }
    // C: every proper prefix
    for ti in 0..4usize {
        for pretty in [false, true] {
            for part in 0..8usize {
                h.case(
                    || format!("every proper prefix of the document of tokenizer {} (pretty: {}), part {}", ti, pretty, part),
                    |h| {
                        let tk = tok(ti);
                        let doc = if pretty { serde_json::to_string_pretty(&tk).unwrap() } else { tk.to_string() };
                        good(h, doc.as_bytes())?;
                        let doc = doc.trim_end().as_bytes();
                        let step = if h.quick() && doc.len() > 6000 { 5 } else { 1 };
                        for n in (part..doc.len()).step_by(8 * step) {
                            h.state(&("C", ti, pretty, n));
                            load(h, &doc[..n], true, true)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // D: versions
    h.case(
        || "every version string and value other than \"2.0\", and none".into(),
        |h| {
            let mk = |v: &str| format!(r#"{{{}"special_tokens":["<s>"],"processors":[],"vocab":[{{"value":"a","score":-1.0}}]}}"#, v);
            good(h, mk(r#""version":"2.0","#).as_bytes())?;
            let mut vs: Vec<String> = strings(&["2", ".", "0", "1", " ", "3"], 0, 4);
            vs.retain(|v| v != "2.0");
            let mut bad: Vec<String> = vs.iter().map(|v| format!(r#""version":"{}","#, v)).collect();
            bad.extend(["", "\"version\":2.0,", "\"version\":null,", "\"version\":[\"2.0\"],", "\"version\":{},", "\"version\":true,", "\"Version\":\"2.0\",", "\"version\":\"2.0\\u0000\",", "\"version\":\"v2.0\",", "\"version\":\"２.０\","].iter().map(|s| s.to_string()));
            for v in bad {
                h.state(&("D", &v));
                load(h, mk(&v).as_bytes(), false, true)?;
            }
            // the version may stand anywhere; a wrong one anywhere is wrong
            for (i, parts) in [[0, 1, 2, 3], [1, 0, 2, 3], [1, 2, 0, 3], [3, 2, 1, 0]].iter().enumerate() {
                for ver in ["2.0", "1.0"] {
                    let f = [format!(r#""version":"{}""#, ver), r#""special_tokens":[]"#.into(), r#""processors":[]"#.into(), r#""vocab":[]"#.into()];
                    let d = format!("{{{}}}", parts.iter().map(|&k| f[k].clone()).collect::<Vec<_>>().join(","));
                    h.state(&("D2", i, ver));
                    load(h, d.as_bytes(), false, ver == "1.0")?;
                }
            }
            Ok(())
        },
    );
    // E: unknown fields, at the top and in a token, before, between and after the others
    h.case(
        || "an unknown field at the top level or in a token entry".into(),
        |h| {
            for name in ["x", "", "Vocab", "vocab ", "special", "value", "score", "type", "encode", "kept", "é", "version2", "\\u0000"] {
                for val in ["null", "1", "\"a\"", "[]", "{}"] {
                    let extra = format!("\"{}\":{}", name, val);
                    for at in 0..5 {
                        let mut top: Vec<String> = vec![r#""version":"2.0""#.into(), r#""special_tokens":[]"#.into(), r#""processors":[{"type":"crlf"}]"#.into(), r#""vocab":[{"value":"a","score":-1.0}]"#.into()];
                        top.insert(at, extra.clone());
                        h.state(&("E", name, val, at));
                        load(h, format!("{{{}}}", top.join(",")).as_bytes(), false, true)?;
                    }
                    if ["value", "score"].contains(&name) {
                        continue;
                    }
                    for at in 0..5 {
                        let mut f: Vec<String> = vec![r#""value":"YQ""#.into(), r#""score":-1.0"#.into(), r#""encoded":true"#.into(), r#""keep":true"#.into()];
                        f.insert(at, extra.clone());
                        h.state(&("E2", name, val, at));
                        load(h, format!(r#"{{"version":"2.0","special_tokens":[],"processors":[],"vocab":[{{"value":"b","score":-2.0}},{{{}}}]}}"#, f.join(",")).as_bytes(), false, true)?;
                    }
                }
            }
            Ok(())
        },
    );
    // F: token bytes
    for first in 0..12usize {
        h.case(
            || format!("encoded values of at most {} characters, part {}", h_len(), first),
            |h| {
                let abc = ["A", "/", "+", "Q", "w", "=", "-", "_", " ", "é", "\\n", "9"];
                let mut all = strings(&abc, 0, h.pick(4, 5));
                all.retain(|s| s.is_empty() && first == 0 || s.starts_with(abc[first]));
                for s in all {
                    h.state(&("F", &s));
                    let d = format!(r#"{{"version":"2.0","special_tokens":[],"processors":[],"vocab":[{{"value":"{}","score":-1.0,"encoded":true}}]}}"#, s);
                    load(h, d.as_bytes(), false, false)?;
                }
                Ok(())
            },
        );
    }
    h.case(
        || "encoded values of every one and two bytes".into(),
        |h| {
            for a in 0..=255u8 {
                for b in (0..=256u16).step_by(h.pick(17, 1)) {
                    let bytes: Vec<u8> = if b == 256 { vec![a] } else { vec![a, b as u8] };
                    let s = base64::engine::general_purpose::STANDARD_NO_PAD.encode(&bytes);
                    let d = format!(r#"{{"version":"2.0","special_tokens":[],"processors":[],"vocab":[{{"encoded":true,"value":"{}","score":-1.0}}]}}"#, s);
                    good(h, d.as_bytes())?;
                }
            }
            Ok(())
        },
    );
    // G: processors
    h.case(
        || "unrecognised processors".into(),
        |h| {
            let types = ["crlf", "unicode", "CRLF", "Crlf", "crlf ", "", "nfc", "lowercase", "Unicode", "cr"];
            let forms = ["nfc", "nfd", "nfkc", "nfkd", "NFC", "", "nf", "nfcc", "crlf", "nfkcd"];
            let mut ps: Vec<(String, bool)> = vec![];
            for t in types {
                ps.push((format!(r#"{{"type":"{}"}}"#, t), t == "crlf"));
                for f in forms {
                    let ok = t == "crlf" || t == "unicode" && ["nfc", "nfd", "nfkc", "nfkd"].contains(&f);
                    ps.push((format!(r#"{{"type":"{}","form":"{}"}}"#, t, f), ok));
                    ps.push((format!(r#"{{"form":"{}","type":"{}"}}"#, f, t), ok));
                    ps.push((format!(r#"{{"form":"{}"}}"#, f), false));
                    ps.push((format!(r#"{{"kind":"{}","form":"{}"}}"#, t, f), false));
                }
            }
            for j in ["{}", "null", "[]", "\"crlf\"", "\"unicode\"", "1", "true", "[\"crlf\"]", "{\"type\":null}", "{\"type\":[\"crlf\"]}", "{\"type\":\"unicode\",\"form\":null}", "{\"type\":\"unicode\",\"form\":1}", "{\"Crlf\":{}}", "{\"type\":1}"] {
                ps.push((j.into(), false));
            }
            for (p, ok) in ps {
                for list in [format!("[{}]", p), format!(r#"[{{"type":"crlf"}},{}]"#, p), format!(r#"[{},{{"type":"unicode","form":"nfc"}}]"#, p)] {
                    h.state(&("G", &list));
                    load(h, format!(r#"{{"version":"2.0","special_tokens":[],"processors":{},"vocab":[]}}"#, list).as_bytes(), false, !ok)?;
                }
            }
            for list in ["null", "{}", "\"crlf\"", "1", "true"] {
                load(h, format!(r#"{{"version":"2.0","special_tokens":[],"processors":{},"vocab":[]}}"#, list).as_bytes(), false, true)?;
            }
            Ok(())
        },
    );
    // H: every change of one byte, every removed or doubled range; every change of one JSON node
    let base = tok(1).to_string();
    for i in 0..base.len() {
        h.case(
            || format!("document {:?}: every change at byte {}", base, i),
            |h| {
                let d = base.as_bytes();
                h.state(&("H", i));
                for b in 0..=255u8 {
                    let mut m = d.to_vec();
                    m[i] = b;
                    load(h, &m, b % 16 == 3, false)?;
                    let mut m = d.to_vec();
                    m.insert(i, b);
                    load(h, &m, false, false)?;
                }
                for j in i + 1..=d.len() {
                    let mut m = d.to_vec();
                    m.drain(i..j);
                    load(h, &m, false, false)?;
                    if j - i < 60 {
                        let mut m = d.to_vec();
                        let r = d[i..j].to_vec();
                        m.splice(j..j, r);
                        load(h, &m, false, false)?;
                    }
                }
                Ok(())
            },
        );
    }
    for part in 0..16usize {
        h.case(
            || format!("every change of one node of the JSON tree (and two nodes in the thorough run), part {}", part),
            |h| {
                let v: Value = serde_json::from_str(&base).unwrap();
                let mut all = vec![];
                mutate(&v, &mut |m| all.push(m));
                for (k, m) in all.iter().enumerate() {
                    if k % 16 != part {
                        continue;
                    }
                    h.state(&("J", k));
                    load(h, m.to_string().as_bytes(), k % 7 == 0, false)?;
                    if !h.quick() {
                        let mut two = vec![];
                        mutate(m, &mut |x| two.push(x.to_string()));
                        for (q, t) in two.iter().enumerate() {
                            if q % 3 == k % 3 {
                                load(h, t.as_bytes(), false, false)?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // I: not JSON at all, deep nesting, huge numbers, duplicate fields
    h.case(
        || "empty, blank, binary, deeply nested and odd documents".into(),
        |h| {
            let mut ds: Vec<Vec<u8>> = ["", " ", "\n", "null", "0", "\"2.0\"", "[]", "{}", "{", "}", "\u{feff}{}", "{\"version\":\"2.0\"", "{\"version\":\"2.0\"}x"].iter().map(|s| s.as_bytes().to_vec()).collect();
            ds.push(vec![0]);
            ds.push(vec![0xff, 0xfe]);
            for n in [100, 127, 128, 129, 1000, 100_000] {
                ds.push("[".repeat(n).into_bytes());
                ds.push(format!(r#"{{"version":"2.0","vocab":{}{}}}"#, "[".repeat(n), "]".repeat(n)).into_bytes());
                ds.push(format!(r#"{{"version":"2.0","processors":[{}{}{}]}}"#, "{\"type\":".repeat(n), "1", "}".repeat(n)).into_bytes());
            }
            for s in ["1e999", "-1e999", "1e-999", "NaN", "Infinity", "\"-1\"", "0x1", "01", "1.", ".5", "-", "--1", "1e", "99999999999999999999999999", "null"] {
                ds.push(format!(r#"{{"version":"2.0","special_tokens":[],"processors":[],"vocab":[{{"value":"a","score":{}}}]}}"#, s).into_bytes());
            }
            for d in ds {
                h.state(&("I", &d));
                load(h, &d, true, false)?;
            }
            Ok(())
        },
    );
}

fn h_len() -> usize {
    4
}
