//! The real program as the thing explored: one run is one transition.
pub use vcommon::oracle::{self, T};
pub use vcommon::*;

pub type Res = Result<(), String>;

#[derive(Clone, Debug)]
pub struct ScoredToken {
    pub value: Vec<u8>,
    pub score: f64,
    pub keep: bool,
}

pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn tk(s: &str, sc: f64, keep: bool) -> T {
    T { b: s.as_bytes().to_vec(), s: sc, keep }
}

/// Scores without coincidences between sums.
pub fn irregular(i: usize) -> f64 {
    // three decimals, so that every reader of decimals agrees on the value
    ((-2.0 - ((i as f64 + 1.0) * 0.6180339887).fract() * 3.0 - i as f64 * 1e-3) * 1000.0).round() / 1000.0
}

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn b64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(B64[(n >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    s
}

fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let (mut n, mut k) = (0u32, 0);
    for c in s.bytes().filter(|c| *c != b'=') {
        n = n << 6 | B64.iter().position(|x| *x == c)? as u32;
        k += 6;
        if k >= 8 {
            k -= 8;
            out.push((n >> k) as u8);
            n &= (1 << k) - 1;
        }
    }
    Some(out)
}

/// A tokenizer file, written and read without the code under test.
#[derive(Clone, Debug, Default)]
pub struct File {
    pub special: Vec<String>,
    pub procs: Vec<String>,
    pub vocab: Vec<T>,
}

impl File {
    pub fn write(&self, path: &str) -> Res {
        let procs: Vec<serde_json::Value> = self.procs.iter().map(|p| if p == "crlf" { serde_json::json!({"type": "crlf"}) } else { serde_json::json!({"type": "unicode", "form": p}) }).collect();
        let vocab: Vec<serde_json::Value> = self
            .vocab
            .iter()
            .map(|t| {
                let mut o = match std::str::from_utf8(&t.b) {
                    Ok(s) => serde_json::json!({"value": s, "score": t.s}),
                    Err(_) => serde_json::json!({"value": b64(&t.b), "encoded": true, "score": t.s}),
                };
                if t.keep {
                    o["keep"] = true.into();
                }
                o
            })
            .collect();
        let j = serde_json::json!({"version": "2.0", "special_tokens": self.special, "processors": procs, "vocab": vocab});
        std::fs::write(path, j.to_string()).map_err(|e| e.to_string())
    }

    pub fn read(path: &str) -> Result<File, String> {
        let j: serde_json::Value = serde_json::from_slice(&std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?).map_err(|e| format!("{}: {}", path, e))?;
        let s = |v: &serde_json::Value| v.as_str().map(|s| s.to_string()).ok_or_else(|| format!("not a string: {}", v));
        let l = |k: &str| j[k].as_array().cloned().ok_or_else(|| format!("no {} in the output", k));
        Ok(File {
            special: l("special_tokens")?.iter().map(s).collect::<Result<_, _>>()?,
            procs: l("processors")?.iter().map(|p| s(if p["type"] == "unicode" { &p["form"] } else { &p["type"] })).collect::<Result<_, _>>()?,
            vocab: l("vocab")?
                .iter()
                .map(|t| {
                    let v = s(&t["value"])?;
                    let b = if t["encoded"] == true { unb64(&v).ok_or_else(|| format!("bad token {}", t))? } else { v.into_bytes() };
                    Ok(T { b, s: t["score"].as_f64().ok_or_else(|| format!("no score: {}", t))?, keep: t["keep"] == true })
                })
                .collect::<Result<_, String>>()?,
        })
    }

    pub fn tokens(&self) -> Vec<ScoredToken> {
        self.vocab.iter().map(|t| ScoredToken { value: t.b.clone(), score: t.s, keep: t.keep }).collect()
    }
}

pub fn process(procs: &[String], s: &str) -> String {
    use unicode_normalization::UnicodeNormalization;
    let mut s = s.to_string();
    for p in procs {
        s = match p.as_str() {
            "crlf" => oracle::crlf(&s),
            "nfc" => s.nfc().collect(),
            "nfd" => s.nfd().collect(),
            "nfkc" => s.nfkc().collect(),
            "nfkd" => s.nfkd().collect(),
            _ => panic!("{}", p),
        };
    }
    s
}

/// One place to work in.
pub struct W<'a> {
    pub dir: &'a str,
    cli: &'a str,
    pub threads: usize,
    /// with every message of the program
    pub log: bool,
    pub runs: std::cell::Cell<u64>,
}

impl<'a> W<'a> {
    pub fn new(h: &'a H, threads: usize) -> Result<W<'a>, String> {
        let _ = std::fs::create_dir_all(&h.scratch);
        Ok(W { dir: &h.scratch, cli: h.cli.as_deref().ok_or("the command-line program is missing")?, threads, log: false, runs: Default::default() })
    }

    pub fn f(&self, n: &str) -> String {
        format!("{}/{}", self.dir, n)
    }

    pub fn put(&self, n: &str, b: &[u8]) -> Result<String, String> {
        let p = self.f(n);
        std::fs::write(&p, b).map_err(|e| e.to_string())?;
        Ok(p)
    }

    /// `parts` training files; returns the arguments naming them.
    pub fn sources(&self, samples: &[String], parts: usize) -> Result<Vec<String>, String> {
        let mut a = vec![];
        let k = samples.len().div_ceil(parts.max(1)).max(1);
        let mut chunks: Vec<&[String]> = samples.chunks(k).collect();
        while chunks.len() < parts {
            chunks.push(&[]);
        }
        for (i, c) in chunks.iter().enumerate() {
            let p = self.put(&format!("s{}.bin", i), c.join("\0").as_bytes())?;
            a.push("--train".into());
            a.push(format!("s{}:{}", i, p));
        }
        Ok(a)
    }

    pub fn go(&self, args: &[String]) -> Res {
        use std::process::*;
        self.runs.set(self.runs.get() + 1);
        let mut c = Command::new(self.cli)
            .args(args)
            .env("RAYON_NUM_THREADS", self.threads.to_string())
            .env("RUST_LOG", if self.log { "trace" } else { "off" })
            .current_dir(self.dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(self.f("stderr")).map_err(|e| e.to_string())?)
            .spawn()
            .map_err(|e| e.to_string())?;
        let t = std::time::Instant::now();
        let mut ms = 1;
        loop {
            if let Some(st) = c.try_wait().map_err(|e| e.to_string())? {
                if st.success() {
                    return Ok(());
                }
                let e = std::fs::read(self.f("stderr")).unwrap_or_default();
                return Err(format!("{:?} ended with {}: {}", self.short(args), st, String::from_utf8_lossy(&e).chars().take(400).collect::<String>()));
            }
            if t.elapsed().as_secs() >= 30 {
                let _ = c.kill();
                let _ = c.wait();
                return Err(format!("{:?} has not ended after 30 s", self.short(args)));
            }
            std::thread::sleep(std::time::Duration::from_millis(ms));
            ms = (ms * 5 / 4 + 1).min(20);
        }
    }

    pub fn short(&self, args: &[String]) -> String {
        args.iter().map(|a| a.replace(&format!("{}/", self.dir), "")).collect::<Vec<_>>().join(" ")
    }
}

/// A default setting and every change of at most `k` of its options: `n[i]`
/// values for option i, value 0 the default.
pub fn around(n: &[usize], k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &m in n {
        out = out
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                (0..m)
                    .map(|v| {
                        let mut p = p.clone();
                        p.push(v);
                        p
                    })
                    .filter(|p| p.iter().filter(|x| **x > 0).count() <= k)
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    out
}
