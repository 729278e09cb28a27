//! The standard library, of which threads, locks and atomics (and reference counts) are controlled
//! by shuttle.
pub use ::std::*;

pub mod thread {
    pub use ::std::thread::*;
    pub use shuttle::thread::{
        current, park, scope, sleep, spawn, yield_now, Builder, JoinHandle, Scope, ScopedJoinHandle, Thread, ThreadId,
    };
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        shuttle::thread::yield_now()
    }
}

pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{
        mpsc, Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, Once, OnceState, RwLock, RwLockReadGuard,
        RwLockWriteGuard, WaitTimeoutResult,
    };
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use shuttle::sync::atomic::{
            fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32,
            AtomicU64, AtomicU8, AtomicUsize,
        };
    }
    #[cfg(feature = "arc")]
    pub use crate::arc::{Arc, Weak};
}

::std::thread_local! {
    static RUNNING: ::std::cell::Cell<bool> = const { ::std::cell::Cell::new(false) };
}

/// While it lives, this OS thread runs an execution under shuttle.
pub struct Running(());
impl Running {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        RUNNING.with(|r| r.set(true));
        Running(())
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        RUNNING.with(|r| r.set(false));
    }
}

/// A point where another thread may be switched to.
pub fn point() {
    if !::std::thread::panicking() && RUNNING.with(|r| r.get()) {
        shuttle::sync::atomic::AtomicBool::new(false).load(::std::sync::atomic::Ordering::SeqCst);
    }
}

#[cfg(feature = "arc")]
mod arc;
