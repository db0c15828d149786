//! Harness runtime: case enumeration and sharding, watchdog, counters, report.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod oracle;

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_START: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static QUIET: AtomicBool = AtomicBool::new(true);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Viol {
    pub case: u64,
    pub key: String,
    pub desc: String,
    pub msg: String,
}

/// Said by a stand-in for a part that does not build against the tree.
pub const ABSENT: &str = "left out, its interface has changed:";

pub struct H {
    pub prop: String,
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub seed: u64,
    pub only: Option<u64>,
    pub describe: bool,
    pub scratch: String,
    pub cli: Option<String>,
    pub aux: String,
    idx: u64,
    /// implementation executions compared with the oracle
    pub traces: u64,
    /// implementation steps / explorer choices
    pub trans: u64,
    states: HashSet<u64>,
    states_capped: bool,
    pub extra: BTreeMap<String, u64>,
    pub caps: Vec<String>,
    samples: Vec<String>,
    pub viol: Vec<Viol>,
    known: BTreeMap<String, (u64, String)>,
    t0: Instant,
    pub deadline: Duration,
    out_of_time: bool,
    markf: Option<std::fs::File>,
    states_out: Option<String>,
}

/// `BIN --count-states FILE...`: number of distinct state hashes over all files.
fn count_states(files: &[String]) -> ! {
    let mut all: Vec<u64> = vec![];
    for f in files {
        if let Ok(b) = std::fs::read(f) {
            all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    all.sort_unstable();
    all.dedup();
    println!("{}", all.len());
    std::process::exit(0)
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map_or(0, |p| p * 4096 / 1024 / 1024)
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a over the Hash stream: stable between runs
    struct F(u64);
    impl std::hash::Hasher for F {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z ^ (z >> 27)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

impl H {
    pub fn from_args() -> H {
        let a: Vec<String> = std::env::args().collect();
        if a.get(1).map(|s| s.as_str()) == Some("--count-states") {
            count_states(&a[2..]);
        }
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
        let mut shard = 0;
        let mut nshards = 1;
        if let Some(s) = get("--shard") {
            let (x, y) = s.split_once('/').expect("--shard i/n");
            shard = x.parse().unwrap();
            nshards = y.parse().unwrap();
        }
        let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
        let only = get("--only").map(|s| s.parse().unwrap());
        let case_secs: u64 = get("--case-secs").map_or(30, |s| s.parse().unwrap());
        let rss_cap: u64 = get("--rss-mb").map_or(3000, |s| s.parse().unwrap());
        let deadline = Duration::from_secs(get("--deadline").map_or(600, |s| s.parse().unwrap()));
        QUIET.store(get("--loud").is_none(), SeqCst);
        std::panic::set_hook(Box::new(|info| {
            let s = format!("{}", info);
            if !QUIET.load(SeqCst) {
                eprintln!("{}", s);
            }
            if let Ok(mut g) = LAST_PANIC.lock() {
                *g = s;
            }
        }));
        now_ms();
        std::thread::spawn(move || {
            let mut last = (0usize, 0u64);
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let c = CASE.load(SeqCst);
                if c == u64::MAX {
                    continue;
                }
                // progress of the explorer counts as life
                let p = vx::PROGRESS.load(SeqCst);
                let start = CASE_START.load(SeqCst);
                if (p, start) != last {
                    last = (p, start);
                    STALL.store(now_ms(), SeqCst);
                }
                let stalled = now_ms().saturating_sub(STALL.load(SeqCst).max(start)) / 1000;
                if stalled > case_secs {
                    println!("{}", serde_json::json!({"t":"hang","case":c,"msg":format!("did not finish within {} s", case_secs)}));
                    let _ = std::io::stdout().flush();
                    unsafe { libc::_exit(3) };
                }
                if rss_mb() > rss_cap {
                    println!("{}", serde_json::json!({"t":"hang","case":c,"msg":format!("memory use grew beyond {} MB without finishing", rss_cap)}));
                    let _ = std::io::stdout().flush();
                    unsafe { libc::_exit(3) };
                }
            }
        });
        let scratch = get("--scratch").unwrap_or_else(|| format!("/tmp/vx-scratch-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&scratch);
        let markf = get("--mark").and_then(|p| std::fs::File::create(p).ok());
        H {
            prop: a.get(1).cloned().unwrap_or_default(),
            tier,
            shard,
            nshards,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            only,
            describe: a.iter().any(|x| x == "--describe"),
            scratch,
            cli: get("--cli"),
            aux: get("--aux").unwrap_or_default(),
            idx: 0,
            traces: 0,
            trans: 0,
            states: HashSet::new(),
            states_capped: false,
            extra: BTreeMap::new(),
            caps: vec![],
            samples: vec![],
            viol: vec![],
            known: BTreeMap::new(),
            t0: Instant::now(),
            deadline,
            out_of_time: false,
            markf,
            states_out: get("--states-out"),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }

    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < 4_000_000 {
            self.states.insert(hash(t));
        } else {
            self.states_capped = true;
        }
    }

    pub fn count(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_insert(0) += n;
    }

    pub fn known(&mut self, id: &str, what: String) {
        let e = self.known.entry(id.to_string()).or_insert((0, what));
        e.0 += 1;
    }

    pub fn index(&self) -> u64 {
        self.idx
    }

    /// One case of the enumeration. Runs only in the shard it belongs to.
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut H) -> Result<(), String>) {
        let i = self.idx;
        self.idx += 1;
        if let Some(o) = self.only {
            if o != i {
                return;
            }
            if self.describe {
                println!("{}", serde_json::json!({"t":"desc","case":i,"desc":desc()}));
                return;
            }
        } else if i % self.nshards != self.shard || self.viol.len() >= 3 {
            return;
        }
        if self.out_of_time {
            return;
        }
        if i % 64 == 0 && self.t0.elapsed() > self.deadline {
            self.out_of_time = true;
            self.caps.push(format!("time budget of {} s used up at case {}", self.deadline.as_secs(), i));
            return;
        }
        if let Some(m) = &mut self.markf {
            use std::os::unix::fs::FileExt;
            let _ = m.write_at(&i.to_le_bytes(), 0);
        }
        CASE_START.store(now_ms(), SeqCst);
        CASE.store(i, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        CASE.store(u64::MAX, SeqCst);
        let ms = now_ms().saturating_sub(CASE_START.load(SeqCst));
        let longest = self.extra.entry("max_case_ms".into()).or_insert(0);
        *longest = (*longest).max(ms);
        // a file to name the cases in that take seconds
        if let (true, Ok(p)) = (ms > 3000, std::env::var("VERIF_SLOW")) {
            use std::io::Write;
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
                let _ = writeln!(f, "{} ms {}", ms, desc().chars().take(150).collect::<String>());
            }
        }
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default())),
        };
        if let Some(at) = r.as_ref().err().and_then(|m| m.find(ABSENT)) {
            let m = &r.as_ref().err().unwrap()[at + ABSENT.len()..];
            let part = format!("{} {}", ABSENT, m.split_whitespace().next().unwrap_or(""));
            if !self.caps.contains(&part) {
                self.caps.push(part);
            }
            return;
        }
        self.count("cases", 1);
        match r {
            Ok(()) => {
                if self.samples.len() < 3 && (i / self.nshards) % 97 == 7 || self.samples.is_empty() {
                    let d = desc();
                    let d: String = d.chars().take(400).collect();
                    self.samples.push(d);
                }
            }
            Err(m) => {
                let v = Viol { case: i, key: self.prop.clone(), desc: desc(), msg: m };
                self.viol.push(v);
            }
        }
    }

    /// Record a violation outside a case (coverage-level facts).
    pub fn violation(&mut self, msg: String) {
        if self.only.is_some() && self.describe {
            return;
        }
        self.viol.push(Viol { case: self.idx, key: self.prop.clone(), desc: "whole run".into(), msg });
    }

    pub fn finish(&mut self) -> ! {
        let _ = std::fs::remove_dir_all(&self.scratch);
        if let Some(f) = &self.states_out {
            let b: Vec<u8> = self.states.iter().flat_map(|s| s.to_le_bytes()).collect();
            let _ = std::fs::write(f, b);
        }
        for v in &self.viol {
            let d: String = v.desc.chars().take(3000).collect();
            let m: String = v.msg.chars().take(3000).collect();
            println!("{}", serde_json::json!({"t":"viol","case":v.case,"key":v.key,"desc":d,"msg":m}));
        }
        for (k, (n, what)) in &self.known {
            println!("{}", serde_json::json!({"t":"known","id":k,"n":n,"what":what}));
        }
        println!(
            "{}",
            serde_json::json!({"t":"end","cases_total":self.idx,"traces":self.traces,"trans":self.trans,
                "states":self.states.len(),"states_capped":self.states_capped,"extra":self.extra,"caps":self.caps,
                "samples":self.samples,"wall":self.t0.elapsed().as_secs_f64()})
        );
        let _ = std::io::stdout().flush();
        std::process::exit(0)
    }
}

static STALL: AtomicU64 = AtomicU64::new(0);

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()))
}

/// All strings over `alphabet` with at most `max` letters, shortest first.
pub fn strings(alphabet: &[&str], min: usize, max: usize) -> Vec<String> {
    let mut out = vec![];
    let mut cur = vec![String::new()];
    for l in 0..=max {
        if l >= min {
            out.extend(cur.iter().cloned());
        }
        if l < max {
            cur = cur.iter().flat_map(|s| alphabet.iter().map(move |a| format!("{}{}", s, a))).collect();
        }
    }
    out
}

pub fn seqs<T: Clone>(alphabet: &[T], min: usize, max: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<T>> = vec![vec![]];
    for l in 0..=max {
        if l >= min {
            out.extend(cur.iter().cloned());
        }
        if l < max {
            cur = cur
                .iter()
                .flat_map(|s| {
                    alphabet.iter().map(move |a| {
                        let mut v = s.clone();
                        v.push(a.clone());
                        v
                    })
                })
                .collect();
        }
    }
    out
}

/// Ordered selections without repetition, of at most `max` elements.
pub fn arrangements<T: Clone + PartialEq>(pool: &[T], max: usize) -> Vec<Vec<T>> {
    seqs(pool, 0, max).into_iter().filter(|v| (0..v.len()).all(|i| !v[..i].contains(&v[i]))).collect()
}

pub fn hex(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) if s.len() < 200 => format!("{:?}", s),
        Ok(s) => format!("text of {} bytes starting {:?}", b.len(), s.chars().take(40).collect::<String>()),
        Err(_) => format!("{:02x?}", b),
    }
}
