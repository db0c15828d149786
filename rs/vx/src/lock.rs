//! A reader-writer lock whose waiting is decided by the explorer. Outside an
//! exploration it is a plain spin lock.
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

const W: usize = 1 << 40;

// Whether a lock is held can be seen only by those who try without waiting.
// Unless somebody does, what is done under a lock is one step for everybody
// else, and no switch just before its release needs to be explored.
static TRY_SEEN: AtomicBool = AtomicBool::new(false);
static TRY_WATCHED: AtomicBool = AtomicBool::new(false);

fn tried() {
    if !TRY_SEEN.load(SeqCst) && crate::active() {
        TRY_SEEN.store(true, SeqCst);
    }
}

/// True once, after the first execution that tried a lock: the exploration
/// starts again, this time with a point before every release.
pub(crate) fn restart() -> bool {
    TRY_SEEN.load(SeqCst) && !TRY_WATCHED.swap(true, SeqCst)
}

fn before_release() {
    if TRY_WATCHED.load(SeqCst) && crate::active() && !crate::aborting() && !std::thread::panicking() {
        let _ = std::panic::catch_unwind(crate::point);
    }
}

pub struct RawLock {
    /// number of readers, or W when write-locked
    state: AtomicUsize,
    waiting_writers: AtomicUsize,
}

impl RawLock {
    pub const fn new() -> Self {
        RawLock { state: AtomicUsize::new(0), waiting_writers: AtomicUsize::new(0) }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    pub fn try_exclusive(&self) -> bool {
        tried();
        self.take_exclusive()
    }
    pub fn try_shared(&self) -> bool {
        tried();
        self.take_shared()
    }
    fn take_exclusive(&self) -> bool {
        self.state.compare_exchange(0, W, SeqCst, SeqCst).is_ok()
    }
    fn take_shared(&self) -> bool {
        let s = self.state.load(SeqCst);
        s & W == 0 && self.state.compare_exchange(s, s + 1, SeqCst, SeqCst).is_ok()
    }
    pub fn exclusive(&self) {
        crate::point();
        loop {
            if self.take_exclusive() {
                return;
            }
            if crate::aborting() {
                if std::thread::panicking() {
                    std::thread::yield_now();
                    if !crate::active() {
                        continue;
                    }
                    return;
                }
                crate::point();
            }
            if crate::active() {
                self.waiting_writers.fetch_add(1, SeqCst);
                crate::block(self.key());
                self.waiting_writers.fetch_sub(1, SeqCst);
            } else {
                std::thread::yield_now();
            }
        }
    }
    /// `fair`: a waiting writer holds back new readers (as std's RwLock does).
    pub fn shared(&self, fair: bool) {
        crate::point();
        loop {
            if !(fair && crate::active() && self.waiting_writers.load(SeqCst) > 0) && self.take_shared() {
                return;
            }
            if crate::aborting() {
                if std::thread::panicking() {
                    return;
                }
                crate::point();
            }
            if crate::active() {
                crate::block(self.key());
            } else {
                std::thread::yield_now();
            }
        }
    }
    pub fn unlock_exclusive(&self) {
        before_release();
        self.state.fetch_and(!W, SeqCst);
        crate::wake(self.key());
    }
    pub fn unlock_shared(&self) {
        before_release();
        let _ = self.state.fetch_update(SeqCst, SeqCst, |s| if s & !W > 0 { Some(s - 1) } else { None });
        crate::wake(self.key());
    }
    pub fn downgrade(&self) {
        self.state.store(1, SeqCst);
        crate::wake(self.key());
    }
    pub fn is_locked(&self) -> bool {
        tried();
        self.state.load(SeqCst) != 0
    }
}

impl Default for RawLock {
    fn default() -> Self {
        Self::new()
    }
}
