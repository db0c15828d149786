//! Stand-in for `std` in the checked build: everything is re-exported, except
//! the synchronisation and thread primitives, which become scheduling points
//! of the explorer (and behave as usual when no exploration is active).
#![no_std]
#[macro_use]
extern crate std as real;
pub use real::*;

pub mod sync {
    pub use self::atomic_shim as atomic;
    pub use crate::prims::{
        Barrier, BarrierWaitResult, Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard,
        WaitTimeoutResult,
    };
    pub use real::sync::*;
    #[path = "atomics.rs"]
    pub mod atomic_shim;
    #[path = "mpsc.rs"]
    pub mod mpsc;
}
#[path = "prims.rs"]
mod prims;

#[path = "thread.rs"]
pub mod thread;

pub mod hint {
    pub use real::hint::*;
    pub fn spin_loop() {
        vx::yield_point();
    }
}
