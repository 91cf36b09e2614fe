pub use ::std::sync::*;

pub mod atomic;
mod locks;
pub mod mpsc;

pub use locks::{
    Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard,
    RwLockWriteGuard, WaitTimeoutResult,
};
