//! One exploration inside one case.
pub use tokengeex::*;
pub use vcommon::oracle::{self, T};
pub use vcommon::*;
pub use vx::{Config, Outcome, Rng};

pub const PLAIN: bool = cfg!(feature = "plain");
pub type Res = std::result::Result<(), String>;

// The standard library's hash seeds come from here: fixed, so that the same
// choices always give the same execution.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        *buf.add(i) = (i as u8).wrapping_mul(73) ^ 0x5a;
    }
    n as isize
}

pub fn cfg(threads: usize, bound: u32, max_execs: u64) -> Config {
    Config { threads, sched: !PLAIN, bound, max_execs, step_limit: 1_000_000, rng: Rng::Fixed(0), costed_steals: false }
}

/// Explore `body`; every outcome must be Ok and pass `check`.
pub fn run<R: Send>(h: &mut H, c: &Config, body: impl Fn() -> R + Sync, mut check: impl FnMut(&mut H, R) -> Res) -> Res {
    let mut err = None;
    let mut c = c.clone();
    if PLAIN {
        c.sched = false;
        vx::set_threads(Some(c.threads));
    }
    let mut last = 0u64;
    let st = {
        let h = &mut *h;
        vx::explore(&c, body, |out, tr| {
            last = hash(&tr.iter().map(|c| c.chosen).collect::<Vec<_>>());
            h.state(&(h.index(), last));
            h.traces += 1;
            let r = match out {
                Outcome::Ok(r) => check(h, r),
                Outcome::Panic(p) => Err(format!("panicked: {}", p)),
                Outcome::Deadlock(w) => Err(w),
                Outcome::Stuck(w) => Err(w),
            };
            match r {
                Ok(()) => true,
                Err(e) => {
                    err = Some(format!("{} [{} threads, choices {}]", e, c.threads, vx::enc(tr)));
                    false
                }
            }
        })
    };
    if PLAIN {
        vx::set_threads(None);
    }
    if std::env::var_os("VX_STATS").is_some() {
        eprintln!("case {}: {} threads, bound {}: {:?} complete {} depth {}", h.index(), c.threads, c.bound, st.per_level, st.complete, st.max_depth);
    }
    h.trans += st.steps.max(st.choice_points);
    h.count("schedules", st.execs);
    h.count("choice_points", st.choice_points);
    h.count("nondeterministic_replays", st.divergences);
    let d = h.extra.entry("max_threads".into()).or_insert(0);
    *d = (*d).max(st.max_threads as u64);
    let d = h.extra.entry("max_choices".into()).or_insert(0);
    *d = (*d).max(st.max_depth as u64);
    if let Some(e) = err {
        return Err(e);
    }
    if !st.complete {
        h.count("explorations_cut_short", 1);
        if st.levels > 0 {
            h.count(&format!("cut_short_after_all_with_{}_deviations", st.levels - 1), 1);
        }
        let m = "some explorations stopped at their cap on executions (counted in explorations_cut_short)";
        if !h.caps.iter().any(|c| c == m) {
            h.caps.push(m.into());
        }
    } else {
        h.count("explorations_complete", 1);
    }
    Ok(())
}

/// One sequential execution with `threads` claimed threads and fixed draws.
pub fn once<R: Send>(threads: usize, draw: u64, body: impl Fn() -> R + Sync) -> std::result::Result<R, String> {
    let _threads = Claim::new(threads);
    let c = Config { threads, sched: false, rng: Rng::Fixed(draw), max_execs: 1, ..Default::default() };
    let mut out = Err("no execution".to_string());
    vx::explore(&c, body, |o, _| {
        out = match o {
            Outcome::Ok(r) => Ok(r),
            Outcome::Panic(p) => Err(format!("panicked: {}", p)),
            _ => Err("stuck".into()),
        };
        false
    });
    out
}

/// One execution under the scheduler without preemption; `helpers` says whether
/// work is handed to other workers whenever possible or never.
pub fn once_sched<R: Send>(threads: usize, draw: u64, helpers: bool, body: impl Fn() -> R + Sync) -> std::result::Result<R, String> {
    let mut c = cfg(threads, 0, 1);
    c.rng = Rng::Fixed(draw);
    c.costed_steals = !helpers;
    c.step_limit = 100_000_000;
    if PLAIN {
        return once(threads, draw, body);
    }
    let mut out = Err("no execution".to_string());
    vx::explore(&c, body, |o, _| {
        out = match o {
            Outcome::Ok(r) => Ok(r),
            Outcome::Panic(p) => Err(format!("panicked: {}", p)),
            Outcome::Deadlock(p) | Outcome::Stuck(p) => Err(p),
        };
        false
    });
    out
}

// Without the facade the progress reporters sleep for real: shorten that.
#[cfg(feature = "plain")]
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: i32, _f: i32, req: *const libc::timespec, _rem: *mut libc::timespec) -> i32 {
    let t = libc::timespec { tv_sec: 0, tv_nsec: if (*req).tv_sec > 0 { 200_000 } else { (*req).tv_nsec } };
    libc::syscall(libc::SYS_nanosleep, &t, std::ptr::null::<u8>());
    0
}

pub fn toks(v: &[T]) -> Vec<ScoredToken> {
    v.iter().map(|t| ScoredToken::new(t.b.clone(), t.s, t.keep)).collect()
}
pub fn model(v: &[T]) -> Model {
    Model::from(toks(v))
}
pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
pub fn es<X>(r: Result<X>) -> std::result::Result<X, String> {
    r.map_err(|e| e.to_string())
}
pub fn tk(b: &str, s: f64, keep: bool) -> T {
    T { b: b.as_bytes().to_vec(), s, keep }
}

/// What the runtime says about the number of threads outside the scheduler.
struct Claim;
impl Claim {
    fn new(n: usize) -> Claim {
        vx::set_threads(Some(n));
        Claim
    }
}
impl Drop for Claim {
    fn drop(&mut self) {
        vx::set_threads(None);
    }
}
