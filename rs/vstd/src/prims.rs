use real::cell::Cell;
use real::fmt;
use real::mem::ManuallyDrop;
use real::ops::{Deref, DerefMut};
use real::prelude::v1::*;
use real::sync as rs;
use real::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use real::time::Duration;
use vx::RawLock;

pub struct Mutex<T: ?Sized> {
    raw: RawLock,
    real: rs::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    raw: bool,
    g: ManuallyDrop<rs::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { raw: RawLock::new(), real: rs::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.real.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, raw: bool, r: LockResult<rs::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
        match r {
            Ok(g) => Ok(MutexGuard { lock: self, raw, g: ManuallyDrop::new(g) }),
            Err(e) => Err(PoisonError::new(MutexGuard { lock: self, raw, g: ManuallyDrop::new(e.into_inner()) })),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let raw = vx::active();
        if raw {
            self.raw.exclusive();
        }
        self.wrap(raw, self.real.lock())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        let raw = vx::active();
        if raw {
            vx::point();
            if !self.raw.try_exclusive() {
                return Err(TryLockError::WouldBlock);
            }
            return self.wrap(true, self.real.lock()).map_err(TryLockError::Poisoned);
        }
        match self.real.try_lock() {
            Ok(g) => Ok(MutexGuard { lock: self, raw, g: ManuallyDrop::new(g) }),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard {
                lock: self,
                raw,
                g: ManuallyDrop::new(e.into_inner()),
            }))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.real.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.real.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.real.get_mut()
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.real, f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.g
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.g
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.g) };
        if self.raw {
            self.lock.raw.unlock_exclusive();
        }
    }
}

pub struct RwLock<T: ?Sized> {
    raw: RawLock,
    real: rs::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    raw: bool,
    g: ManuallyDrop<rs::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    raw: bool,
    g: ManuallyDrop<rs::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { raw: RawLock::new(), real: rs::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.real.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let raw = vx::active();
        if raw {
            self.raw.shared(true);
        }
        match self.real.read() {
            Ok(g) => Ok(RwLockReadGuard { lock: self, raw, g: ManuallyDrop::new(g) }),
            Err(e) => {
                Err(PoisonError::new(RwLockReadGuard { lock: self, raw, g: ManuallyDrop::new(e.into_inner()) }))
            }
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let raw = vx::active();
        if raw {
            self.raw.exclusive();
        }
        match self.real.write() {
            Ok(g) => Ok(RwLockWriteGuard { lock: self, raw, g: ManuallyDrop::new(g) }),
            Err(e) => {
                Err(PoisonError::new(RwLockWriteGuard { lock: self, raw, g: ManuallyDrop::new(e.into_inner()) }))
            }
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        let raw = vx::active();
        if raw {
            vx::point();
            if !self.raw.try_shared() {
                return Err(TryLockError::WouldBlock);
            }
        }
        match self.real.try_read() {
            Ok(g) => Ok(RwLockReadGuard { lock: self, raw, g: ManuallyDrop::new(g) }),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard {
                lock: self,
                raw,
                g: ManuallyDrop::new(e.into_inner()),
            }))),
            Err(TryLockError::WouldBlock) => {
                if raw {
                    self.raw.unlock_shared();
                }
                Err(TryLockError::WouldBlock)
            }
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        let raw = vx::active();
        if raw {
            vx::point();
            if !self.raw.try_exclusive() {
                return Err(TryLockError::WouldBlock);
            }
        }
        match self.real.try_write() {
            Ok(g) => Ok(RwLockWriteGuard { lock: self, raw, g: ManuallyDrop::new(g) }),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard {
                lock: self,
                raw,
                g: ManuallyDrop::new(e.into_inner()),
            }))),
            Err(TryLockError::WouldBlock) => {
                if raw {
                    self.raw.unlock_exclusive();
                }
                Err(TryLockError::WouldBlock)
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.real.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.real.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.real, f)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.g
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.g
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.g
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.g) };
        if self.raw {
            self.lock.raw.unlock_shared();
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.g) };
        if self.raw {
            self.lock.raw.unlock_exclusive();
        }
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

pub struct Condvar {
    real: rs::Condvar,
    seq: Cell<usize>,
}
unsafe impl Sync for Condvar {}
unsafe impl Send for Condvar {}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { real: rs::Condvar::new(), seq: Cell::new(0) }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = g.lock;
        if !g.raw {
            let inner = unsafe { ManuallyDrop::take(&mut g.g) };
            real::mem::forget(g);
            return lock.wrap(false, self.real.wait(inner));
        }
        drop(g);
        vx::block(self.key());
        lock.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut cond: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while cond(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let lock = g.lock;
        if !g.raw {
            let inner = unsafe { ManuallyDrop::take(&mut g.g) };
            real::mem::forget(g);
            return match self.real.wait_timeout(inner, d) {
                Ok((g, t)) => lock.wrap(false, Ok(g)).map(|g| (g, WaitTimeoutResult(t.timed_out()))).map_err(|_| unreachable!()),
                Err(e) => {
                    let (g, t) = e.into_inner();
                    let g = MutexGuard { lock, raw: false, g: ManuallyDrop::new(g) };
                    Err(PoisonError::new((g, WaitTimeoutResult(t.timed_out()))))
                }
            };
        }
        // modelled as: sleep for the duration, reporting whether a
        // notification came meanwhile (or spuriously early)
        let s0 = self.seq.get();
        drop(g);
        vx::sleep_ms(d.as_millis() as u64);
        let timed = self.seq.get() == s0;
        match lock.lock() {
            Ok(g) => Ok((g, WaitTimeoutResult(timed))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(timed)))),
        }
    }
    pub fn notify_one(&self) {
        vx::point();
        self.seq.set(self.seq.get() + 1);
        vx::wake_n(self.key(), 1);
        self.real.notify_one();
    }
    pub fn notify_all(&self) {
        vx::point();
        self.seq.set(self.seq.get() + 1);
        vx::wake(self.key());
        self.real.notify_all();
    }
}

pub struct Barrier {
    m: Mutex<(usize, usize)>,
    cv: Condvar,
    n: usize,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { m: Mutex::new((0, 0)), cv: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.cv.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}

/// A cell written once: initialisation is guarded by a lock of the explorer.
pub struct OnceLock<T> {
    init: Mutex<()>,
    cell: rs::OnceLock<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { init: Mutex::new(()), cell: rs::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        vx::point();
        self.cell.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.cell.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let _g = self.init.lock().unwrap_or_else(|e| e.into_inner());
        self.cell.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if let Some(t) = self.get() {
            return t;
        }
        let _g = self.init.lock().unwrap_or_else(|e| e.into_inner());
        if self.cell.get().is_none() {
            let _ = self.cell.set(f());
        }
        self.cell.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.cell.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.cell.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        OnceLock { init: Mutex::new(()), cell: self.cell.clone() }
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.fmt(f)
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        OnceLock { init: Mutex::new(()), cell: t.into() }
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: Mutex<Option<F>>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), f: Mutex::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| {
            let f = this.f.lock().unwrap_or_else(|e| e.into_inner()).take();
            f.expect("LazyLock instance has previously been poisoned")()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub struct Once {
    cell: OnceLock<()>,
}
impl Once {
    pub const fn new() -> Self {
        Once { cell: OnceLock::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.cell.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.cell.get().is_some()
    }
}
