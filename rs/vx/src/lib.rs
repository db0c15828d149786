//! vx: a small stateless model checker.
//!
//! An *exploration* runs a closure again and again; every nondeterministic
//! decision it makes through this crate (which thread runs next, what a random
//! draw returns, whether a sleeping thread is late) is a *choice point*. The
//! explorer enumerates the choice points depth first, so that when
//! `Stats::complete` is true every execution within the deviation bound has
//! been run exactly once. Threads are real OS threads, but only the holder of
//! the scheduling token runs; the token moves at choice points only.

use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub mod lock;
pub use lock::RawLock;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cp {
    /// number of options
    pub n: u32,
    /// how many of them (the first ones) cost nothing; the others cost one deviation
    pub free: u32,
    pub chosen: u32,
    pub kind: u8,
}

pub const K_SCHED: u8 = 0;
pub const K_RNG: u8 = 1;
pub const K_STEAL: u8 = 2;
pub const K_USER: u8 = 3;

#[derive(Clone)]
pub enum Rng {
    /// leave the program's generator alone
    Real,
    /// each draw is a choice among these 64-bit values
    Choices(Vec<u64>),
    /// the same, but every value other than the first costs a deviation
    Costed(Vec<u64>),
    /// each draw returns this value
    Fixed(u64),
    /// the i-th draw returns the first or the second value, as bit j of i says
    Numbered(u32, u64, u64),
}

#[derive(Clone)]
pub struct Config {
    /// number of threads the data-parallel runtime claims to have
    pub threads: usize,
    /// run under the controlled scheduler (otherwise only choices are explored)
    pub sched: bool,
    /// maximum number of preemptions / early wake-ups per execution
    pub bound: u32,
    /// cap on executions (reported when hit)
    pub max_execs: u64,
    /// scheduling steps after which an execution counts as not terminating
    pub step_limit: u64,
    pub rng: Rng,
    /// does handing half of a job to another worker cost a deviation?
    pub costed_steals: bool,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            threads: 2,
            sched: true,
            bound: 2,
            max_execs: u64::MAX,
            step_limit: 20_000,
            rng: Rng::Fixed(0),
            costed_steals: false,
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub execs: u64,
    pub choice_points: u64,
    pub steps: u64,
    pub max_depth: usize,
    pub max_threads: usize,
    pub divergences: u64,
    /// numbers of deviations for which every execution was run
    pub levels: u32,
    /// executions per number of deviations
    pub per_level: Vec<u64>,
    dropped: u64,
    pub complete: bool,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.execs += o.execs;
        self.choice_points += o.choice_points;
        self.steps += o.steps;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.max_threads = self.max_threads.max(o.max_threads);
        self.divergences += o.divergences;
    }
}

/// How one execution ended.
pub enum Outcome<R> {
    Ok(R),
    Panic(String),
    Deadlock(String),
    /// step limit reached
    Stuck(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize),
    Sleeping(u64),
    Idle,
    Done,
}

type Task = Box<dyn FnOnce() + Send + 'static>;

struct Thr {
    st: St,
    cv: Arc<Condvar>,
    name: String,
    worker: bool,
    index: Option<usize>,
    task: Option<Task>,
    os: Option<std::thread::JoinHandle<()>>,
}

struct Inner {
    prefix: Vec<Cp>,
    trace: Vec<Cp>,
    cost: u32,
    diverged: bool,
    thr: Vec<Thr>,
    current: usize,
    steps: u64,
    clock: u64,
    abort: bool,
    shutdown: bool,
    finished: bool,
    why: Option<(u8, String)>,
    panics: Vec<String>,
    main_in_pool: bool,
    rng_draws: u64,
}

pub struct Exec {
    cfg: Config,
    inner: Mutex<Inner>,
    fin: Condvar,
}

thread_local! {
    static CTX: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
    static THREADS: RefCell<Option<usize>> = const { RefCell::new(None) };
}

/// Ticks on every execution and choice; watchdogs read it.
pub static PROGRESS: AtomicUsize = AtomicUsize::new(0);

/// Free threads (not pool workers) started in the current execution.
pub static SPAWNED: AtomicUsize = AtomicUsize::new(0);

struct AbortTok;

fn ctx() -> Option<(Arc<Exec>, usize)> {
    CTX.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}

impl Exec {
    fn lk(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl Inner {
    fn choose(&mut self, n: u32, free: u32, kind: u8) -> u32 {
        PROGRESS.fetch_add(1, SeqCst);
        if n <= 1 {
            return 0;
        }
        let i = self.trace.len();
        let mut chosen = 0;
        if !self.diverged && i < self.prefix.len() {
            let p = self.prefix[i];
            if p.n != n || p.free != free || p.kind != kind {
                self.diverged = true;
            } else {
                chosen = p.chosen;
            }
        }
        if chosen >= free {
            self.cost += 1;
        }
        self.trace.push(Cp { n, free, chosen, kind });
        chosen
    }

    fn describe(&self) -> String {
        self.thr
            .iter()
            .enumerate()
            .filter(|(_, t)| t.st != St::Done && t.st != St::Idle)
            .map(|(i, t)| format!("{}:{}={:?}", i, t.name, t.st))
            .map(|s| s.split("Blocked(").next().unwrap().to_string() + if s.contains("Blocked") { "Blocked" } else { "" })
            .collect::<Vec<_>>()
            .join(", ")
    }

    /// Pick the next thread to run. `me` is the caller, whose state is already
    /// up to date. Returns false when the execution is over or aborted.
    fn pick(&mut self, me: usize, yielding: bool, exec: &Exec) -> bool {
        if self.abort {
            return false;
        }
        self.steps += 1;
        if self.steps > exec.cfg.step_limit {
            let d = self.describe();
            self.do_abort(3, format!("no end after {} scheduling steps; live threads: {}", exec.cfg.step_limit, d), exec);
            return false;
        }
        let me_ready = self.thr[me].st == St::Ready;
        let mut opts: Vec<usize> = Vec::with_capacity(8);
        if me_ready && !yielding {
            opts.push(me);
        }
        for i in 0..self.thr.len() {
            if i != me && self.thr[i].st == St::Ready {
                opts.push(i);
            }
        }
        let mut free = if me_ready && !yielding { 1 } else { opts.len() };
        if me_ready && yielding {
            opts.push(me);
            if free == 0 {
                free = 1;
            }
        }
        if opts.is_empty() {
            // time passes
            let min = self.thr.iter().filter_map(|t| if let St::Sleeping(u) = t.st { Some(u) } else { None }).min();
            match min {
                Some(u) => {
                    self.clock = self.clock.max(u);
                    for i in 0..self.thr.len() {
                        if self.thr[i].st == St::Sleeping(u) {
                            opts.push(i);
                        }
                    }
                    free = opts.len();
                }
                None => {
                    if self.thr.iter().all(|t| t.st == St::Done || t.st == St::Idle) {
                        self.finished = true;
                        exec.fin.notify_all();
                        return false;
                    }
                    let d = self.describe();
                    self.do_abort(2, format!("deadlock: {}", d), exec);
                    return false;
                }
            }
        } else {
            for i in 0..self.thr.len() {
                if let St::Sleeping(_) = self.thr[i].st {
                    opts.push(i);
                }
            }
        }
        let c = self.choose(opts.len() as u32, free as u32, K_SCHED) as usize;
        let next = opts[c];
        if let St::Sleeping(u) = self.thr[next].st {
            self.clock = self.clock.max(u);
            self.thr[next].st = St::Ready;
        }
        self.current = next;
        if next != me {
            self.thr[next].cv.notify_one();
        }
        true
    }

    fn do_abort(&mut self, kind: u8, why: String, exec: &Exec) {
        if self.why.is_none() {
            self.why = Some((kind, why));
        }
        self.abort = true;
        for t in &self.thr {
            t.cv.notify_all();
        }
        exec.fin.notify_all();
    }
}

fn abort_here() {
    if !std::thread::panicking() {
        resume_unwind(Box::new(AbortTok));
    }
}

/// Wait until it is this thread's turn. Returns false when aborted.
fn wait_turn<'a>(mut g: MutexGuard<'a, Inner>, me: usize) -> (MutexGuard<'a, Inner>, bool) {
    let cv = g.thr[me].cv.clone();
    while !(g.abort || g.current == me && g.thr[me].st == St::Ready) {
        g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    let ok = !g.abort;
    (g, ok)
}

/// True when the calling thread is under a controlled scheduler.
pub fn active() -> bool {
    CTX.try_with(|c| c.try_borrow().map_or(false, |c| c.as_ref().map_or(false, |(e, _)| e.cfg.sched))).unwrap_or(false)
}

fn switch(set: impl FnOnce(&mut Inner, usize), yielding: bool) {
    let Some((exec, me)) = ctx() else { return };
    if !exec.cfg.sched {
        return;
    }
    let mut g = exec.lk();
    if g.abort {
        drop(g);
        abort_here();
        return;
    }
    set(&mut g, me);
    g.pick(me, yielding, &exec);
    let (g, ok) = wait_turn(g, me);
    drop(g);
    if !ok {
        abort_here();
    }
}

/// A scheduling point.
pub fn point() {
    if active() {
        switch(|_, _| {}, false);
    }
}

/// A scheduling point inside a wait loop: prefer any other thread.
pub fn yield_point() {
    if active() {
        switch(|_, _| {}, true);
    } else {
        std::thread::yield_now();
    }
}

/// Block the calling thread until somebody calls `wake(key)`.
pub fn block(key: usize) {
    switch(|g, me| g.thr[me].st = St::Blocked(key), false);
}

/// Make every thread blocked on `key` runnable (no switch).
pub fn wake(key: usize) {
    wake_n(key, usize::MAX);
}

pub fn wake_n(key: usize, n: usize) {
    if let Some((exec, _)) = ctx() {
        if exec.cfg.sched {
            let mut g = exec.lk();
            let mut k = 0;
            for t in g.thr.iter_mut() {
                if t.st == St::Blocked(key) && k < n {
                    t.st = St::Ready;
                    k += 1;
                }
            }
        }
    }
}

pub fn sleep_ms(ms: u64) {
    switch(
        |g, me| {
            let until = g.clock + ms.max(1);
            g.thr[me].st = St::Sleeping(until);
        },
        false,
    );
}

pub fn aborting() -> bool {
    ctx().map_or(false, |(e, _)| e.lk().abort)
}

pub fn clock_ms() -> u64 {
    ctx().map_or(0, |(e, _)| e.lk().clock)
}

/// A data choice made by the harness or a stub.
pub fn choose(n: usize) -> usize {
    choose_kind(n, n, K_USER)
}

pub fn choose_kind(n: usize, free: usize, kind: u8) -> usize {
    match ctx() {
        Some((e, _)) => {
            let mut g = e.lk();
            if g.abort {
                return 0;
            }
            g.choose(n as u32, free as u32, kind) as usize
        }
        None => 0,
    }
}

/// What the program's random generator must return, if it is controlled.
pub fn rng_u64() -> Option<u64> {
    let (e, _) = ctx()?;
    match &e.cfg.rng {
        Rng::Real => None,
        Rng::Fixed(v) => {
            e.lk().rng_draws += 1;
            Some(*v)
        }
        Rng::Numbered(j, a, b) => {
            let mut g = e.lk();
            let i = g.rng_draws;
            g.rng_draws += 1;
            Some(if i >> j & 1 == 0 { *a } else { *b })
        }
        Rng::Choices(v) => {
            let n = v.len();
            let mut g = e.lk();
            g.rng_draws += 1;
            let c = if g.abort { 0 } else { g.choose(n as u32, n as u32, K_RNG) as usize };
            Some(v[c])
        }
        Rng::Costed(v) => {
            let n = v.len();
            let mut g = e.lk();
            g.rng_draws += 1;
            let c = if g.abort { 0 } else { g.choose(n as u32, 1, K_RNG) as usize };
            Some(v[c])
        }
    }
}

/// Does another worker take the second half of the job being split?
pub fn steal() -> bool {
    if !active() || !worker_available() {
        return false;
    }
    let costed = ctx().map_or(false, |(e, _)| e.cfg.costed_steals);
    if costed {
        choose_kind(2, 1, K_STEAL) == 1
    } else {
        choose_kind(2, 2, K_STEAL) == 0
    }
}

/// Number of draws made so far in this execution.
pub fn rng_draws() -> u64 {
    ctx().map_or(0, |(e, _)| e.lk().rng_draws)
}

/// The choices made by kind K_RNG so far in this execution, as indices.
pub fn rng_trace() -> Vec<u32> {
    ctx().map_or(vec![], |(e, _)| e.lk().trace.iter().filter(|c| c.kind == K_RNG).map(|c| c.chosen).collect())
}

pub fn num_threads() -> usize {
    if let Some(n) = THREADS.try_with(|t| *t.borrow()).ok().flatten() {
        return n;
    }
    ctx().map_or(1, |(e, _)| e.cfg.threads)
}

/// Set the number of threads the runtime claims to have outside explorations.
pub fn set_threads(n: Option<usize>) {
    THREADS.with(|t| *t.borrow_mut() = n);
}

pub struct JoinKey {
    tid: usize,
    slot: Arc<Mutex<Option<Result<(), Box<dyn Any + Send>>>>>,
    done: Arc<AtomicBool>,
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a non-string payload".into()
    }
}

fn os_thread(exec: Arc<Exec>, tid: usize) -> std::thread::JoinHandle<()> {
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            CTX.with(|c| *c.borrow_mut() = Some((exec.clone(), tid)));
            loop {
                let task = {
                    let mut g = exec.lk();
                    let cv = g.thr[tid].cv.clone();
                    loop {
                        if g.shutdown || (g.abort && g.thr[tid].task.is_none()) {
                            g.thr[tid].st = St::Done;
                            exec.fin.notify_all();
                            drop(g);
                            CTX.with(|c| *c.borrow_mut() = None);
                            return;
                        }
                        if g.thr[tid].task.is_some() && (g.abort || g.current == tid) {
                            break;
                        }
                        g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
                    }
                    if g.abort {
                        // never started: drop it
                        let t = g.thr[tid].task.take();
                        drop(g);
                        drop(t);
                        continue;
                    }
                    g.thr[tid].task.take().unwrap()
                };
                let _ = catch_unwind(AssertUnwindSafe(task));
                let mut g = exec.lk();
                let worker = g.thr[tid].worker;
                g.thr[tid].st = if worker { St::Idle } else { St::Done };
                g.thr[tid].index = None;
                if !g.abort {
                    g.pick(tid, false, &exec);
                }
                exec.fin.notify_all();
                if !worker {
                    drop(g);
                    CTX.with(|c| *c.borrow_mut() = None);
                    return;
                }
            }
        })
        .expect("os thread")
}

fn spawn_task(name: &str, worker: bool, f: Task) -> JoinKey {
    let (exec, _me) = ctx().expect("no exploration");
    let slot = Arc::new(Mutex::new(None));
    let done = Arc::new(AtomicBool::new(false));
    let (s2, d2) = (slot.clone(), done.clone());
    let key = Arc::as_ptr(&done) as usize;
    let e2 = exec.clone();
    let detached_panics = !worker;
    let wrapped: Task = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(f));
        if let Err(p) = &r {
            if detached_panics && !p.is::<AbortTok>() {
                e2.lk().panics.push(payload_str(&**p));
            }
        }
        *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
        d2.store(true, SeqCst);
        wake(key);
    });
    let mut g = exec.lk();
    if g.abort {
        drop(g);
        abort_here();
        return JoinKey { tid: 0, slot, done };
    }
    let mut tid = None;
    if worker {
        tid = (0..g.thr.len()).find(|&i| g.thr[i].worker && g.thr[i].st == St::Idle);
    }
    let used: Vec<usize> = g.thr.iter().filter_map(|t| t.index).collect();
    let index = if worker { (0..).find(|i| !used.contains(i)) } else { None };
    let tid = match tid {
        Some(t) => {
            g.thr[t].task = Some(wrapped);
            g.thr[t].st = St::Ready;
            g.thr[t].index = index;
            t
        }
        None => {
            let t = g.thr.len();
            g.thr.push(Thr {
                st: St::Ready,
                cv: Arc::new(Condvar::new()),
                name: name.to_string(),
                worker,
                index,
                task: Some(wrapped),
                os: None,
            });
            let h = os_thread(exec.clone(), t);
            g.thr[t].os = Some(h);
            t
        }
    };
    drop(g);
    JoinKey { tid, slot, done }
}

impl JoinKey {
    /// Wait (under the scheduler) until the task is finished.
    pub fn wait(&self) -> Result<(), Box<dyn Any + Send>> {
        let key = Arc::as_ptr(&self.done) as usize;
        while !self.done.load(SeqCst) {
            if aborting() {
                // the other thread unwinds on its own; wait for it for real
                let mut n = 0u32;
                while !self.done.load(SeqCst) {
                    // a task dropped before it started never finishes
                    if Arc::strong_count(&self.done) == 1 || n > 20_000 {
                        break;
                    }
                    n += 1;
                    std::thread::sleep(std::time::Duration::from_micros(100));
                }
                break;
            }
            let r = catch_unwind(AssertUnwindSafe(|| block(key)));
            if r.is_err() {
                continue; // aborting
            }
        }
        if aborting() {
            abort_here();
        }
        self.slot.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or(Ok(()))
    }
    pub fn is_done(&self) -> bool {
        self.done.load(SeqCst)
    }
    pub fn tid(&self) -> usize {
        self.tid
    }
}

/// Start a task on a pool worker.
///
/// # Safety
/// Borrowed data must outlive the task: call `wait` before it ends.
pub unsafe fn spawn_worker<'a>(f: Box<dyn FnOnce() + Send + 'a>) -> JoinKey {
    let f: Task = std::mem::transmute(f);
    spawn_task("worker", true, f)
}

/// Start a free thread (std::thread::spawn).
///
/// # Safety
/// As `spawn_worker`, unless the closure is 'static.
pub unsafe fn spawn_thread<'a>(f: Box<dyn FnOnce() + Send + 'a>) -> JoinKey {
    let f: Task = std::mem::transmute(f);
    SPAWNED.fetch_add(1, SeqCst);
    let k = spawn_task("thread", false, f);
    point();
    k
}

/// May another pool worker be started now?
pub fn worker_available() -> bool {
    let Some((exec, _)) = ctx() else { return false };
    let g = exec.lk();
    let busy = g.thr.iter().filter(|t| t.worker && t.st != St::Idle && t.st != St::Done).count();
    let main = g.main_in_pool as usize;
    !g.abort && busy + main < exec.cfg.threads
}

/// Marks the main thread as taking part in the pool; returns the old mark.
pub fn enter_pool() -> bool {
    let Some((exec, me)) = ctx() else { return true };
    if !exec.cfg.sched {
        return true;
    }
    let mut g = exec.lk();
    if g.thr[me].worker {
        return true;
    }
    let old = g.main_in_pool;
    g.main_in_pool = true;
    if !old {
        g.thr[me].index = Some(0);
    }
    old
}

pub fn leave_pool(old: bool) {
    if old {
        return;
    }
    if let Some((exec, me)) = ctx() {
        let mut g = exec.lk();
        g.main_in_pool = false;
        g.thr[me].index = None;
    }
}

pub fn pool_index() -> Option<usize> {
    ctx().and_then(|(e, me)| {
        let g = e.lk();
        g.thr.get(me).and_then(|t| t.index)
    })
}

fn run_once<R: Send>(cfg: &Config, prefix: Vec<Cp>, body: &(dyn Fn() -> R + Sync)) -> (Outcome<R>, Inner) {
    SPAWNED.store(0, SeqCst);
    let mut inner = Inner {
        prefix,
        trace: Vec::with_capacity(64),
        cost: 0,
        diverged: false,
        thr: vec![],
        current: 0,
        steps: 0,
        clock: 0,
        abort: false,
        shutdown: false,
        finished: false,
        why: None,
        panics: vec![],
        main_in_pool: false,
        rng_draws: 0,
    };
    if !cfg.sched {
        let exec = Arc::new(Exec { cfg: cfg.clone(), inner: Mutex::new(inner), fin: Condvar::new() });
        let old = CTX.with(|c| c.borrow_mut().replace((exec.clone(), 0)));
        let r = catch_unwind(AssertUnwindSafe(body));
        CTX.with(|c| *c.borrow_mut() = old);
        let exec = Arc::try_unwrap(exec).ok().expect("exec leaked");
        let inner = exec.inner.into_inner().unwrap_or_else(|e| e.into_inner());
        let out = match r {
            Ok(v) => Outcome::Ok(v),
            Err(p) => Outcome::Panic(payload_str(&*p)),
        };
        return (out, inner);
    }
    let result: Arc<Mutex<Option<Result<R, Box<dyn Any + Send>>>>> = Arc::new(Mutex::new(None));
    let r2 = result.clone();
    let task: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(body));
        *r2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
    });
    let task: Task = unsafe { std::mem::transmute(task) };
    inner.thr.push(Thr {
        st: St::Ready,
        cv: Arc::new(Condvar::new()),
        name: "main".into(),
        worker: false,
        index: None,
        task: Some(task),
        os: None,
    });
    let exec = Arc::new(Exec { cfg: cfg.clone(), inner: Mutex::new(inner), fin: Condvar::new() });
    {
        let mut g = exec.lk();
        let h = os_thread(exec.clone(), 0);
        g.thr[0].os = Some(h);
    }
    let handles: Vec<_> = {
        let mut g = exec.lk();
        while !g.finished && !g.abort {
            g = exec.fin.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g.shutdown = true;
        for t in &g.thr {
            t.cv.notify_all();
        }
        g.thr.iter_mut().filter_map(|t| t.os.take()).collect()
    };
    for h in handles {
        let _ = h.join();
    }
    // threads registered while aborting
    loop {
        let more: Vec<_> = exec.lk().thr.iter_mut().filter_map(|t| t.os.take()).collect();
        if more.is_empty() {
            break;
        }
        for h in more {
            let _ = h.join();
        }
    }
    let exec = Arc::try_unwrap(exec).ok().expect("exec leaked");
    let inner = exec.inner.into_inner().unwrap_or_else(|e| e.into_inner());
    let r = result.lock().unwrap_or_else(|e| e.into_inner()).take();
    let out = match (&inner.why, r) {
        (Some((2, w)), _) => Outcome::Deadlock(w.clone()),
        (Some(_), Some(Err(p))) if !p.is::<AbortTok>() => Outcome::Panic(payload_str(&*p)),
        (Some((_, w)), _) => Outcome::Stuck(w.clone()),
        (None, Some(Ok(_))) if !inner.panics.is_empty() => Outcome::Panic(format!("thread panicked: {}", inner.panics[0])),
        (None, Some(Ok(v))) => Outcome::Ok(v),
        (None, Some(Err(p))) => Outcome::Panic(payload_str(&*p)),
        (None, None) => Outcome::Panic("body never ran".into()),
    };
    (out, inner)
}

/// Explore every execution of `body` within the bound. `check` sees each
/// outcome together with the choices that led to it; it returns false to stop.
pub fn explore<R: Send>(cfg: &Config, body: impl Fn() -> R + Sync, mut check: impl FnMut(Outcome<R>, &[Cp]) -> bool) -> Stats {
    // Work items: an execution seen before, of which the choice at one place is
    // to be changed. `now` holds those with the current number of deviations,
    // `later` those with one more: all executions with d deviations are run
    // before any with d + 1, each execution exactly once.
    let mut stats = Stats::default();
    let mut now: Vec<(Arc<Vec<Cp>>, u32, u32)> = vec![];
    let mut later: Vec<(Arc<Vec<Cp>>, u32, u32)> = vec![];
    let mut level = 0u32;
    let mut prefix: Vec<Cp> = vec![];
    loop {
        let plen = prefix.len();
        let (out, inner) = run_once(cfg, prefix, &body);
        stats.execs += 1;
        stats.per_level.resize(level as usize + 1, 0);
        stats.per_level[level as usize] += 1;
        stats.choice_points += (inner.trace.len().saturating_sub(plen.saturating_sub(1))) as u64;
        stats.steps += inner.steps.max(inner.trace.len() as u64);
        stats.max_depth = stats.max_depth.max(inner.trace.len());
        stats.max_threads = stats.max_threads.max(inner.thr.len());
        let trace = inner.trace;
        let diverged = inner.diverged || trace.len() < plen;
        stats.divergences += diverged as u64;
        if !check(out, &trace) {
            return stats;
        }
        if lock::restart() {
            (now, later, level, prefix) = (vec![], vec![], 0, vec![]);
            continue;
        }
        // when the code behaved differently under the same choices, this branch
        // is not extended
        if !diverged && trace.len() > plen {
            let trace = Arc::new(trace);
            let room = (cfg.max_execs - stats.execs.min(cfg.max_execs)) as usize;
            for i in (plen..trace.len()).rev() {
                let p = trace[i];
                for c in (1..p.n).rev() {
                    if c < p.free {
                        now.push((trace.clone(), i as u32, c));
                    } else if level < cfg.bound && later.len() <= room {
                        later.push((trace.clone(), i as u32, c));
                    } else if level < cfg.bound {
                        stats.dropped += 1;
                    }
                }
            }
        }
        if now.is_empty() {
            stats.levels += 1;
            level += 1;
            // earliest found first
            later.reverse();
            std::mem::swap(&mut now, &mut later);
        }
        let Some((t, i, c)) = now.pop() else {
            stats.complete = stats.divergences == 0 && stats.dropped == 0;
            return stats;
        };
        if stats.execs >= cfg.max_execs {
            return stats;
        }
        let i = i as usize;
        let mut p = Vec::with_capacity(i + 1);
        p.extend_from_slice(&t[..=i]);
        p[i].chosen = c;
        prefix = p;
    }
}

/// Run one execution with the given choices (a replay).
pub fn replay<R: Send>(cfg: &Config, choices: &[Cp], body: impl Fn() -> R + Sync) -> Outcome<R> {
    run_once(cfg, choices.to_vec(), &body).0
}

/// Run `body` with random draws fixed to `v` (no exploration).
pub fn with_fixed_rng<R: Send>(v: u64, body: impl Fn() -> R + Sync) -> R {
    let cfg = Config { sched: false, rng: Rng::Fixed(v), ..Default::default() };
    match run_once(&cfg, vec![], &body).0 {
        Outcome::Ok(r) => r,
        Outcome::Panic(p) => panic!("{}", p),
        _ => unreachable!(),
    }
}

/// One execution in which the i-th draw is `a` or `b`, as bit `j` of i says.
pub fn with_numbered_rng<R: Send>(j: u32, a: u64, b: u64, body: impl Fn() -> R + Sync) -> R {
    let cfg = Config { sched: false, rng: Rng::Numbered(j, a, b), ..Default::default() };
    match run_once(&cfg, vec![], &body).0 {
        Outcome::Ok(r) => r,
        Outcome::Panic(p) => panic!("{}", p),
        _ => unreachable!(),
    }
}

pub fn enc(tr: &[Cp]) -> String {
    tr.iter().map(|c| format!("{}/{}", c.chosen, c.n)).collect::<Vec<_>>().join(",")
}
