//! Stands in for `std` in the code under test (`--extern std=mcstd`).
//!
//! Everything is std, except: sync::{Mutex, RwLock, Condvar, Barrier, mpsc, atomic}, thread and time,
//! which run under the explorer in [`mc`] (one fiber at a time, every synchronisation operation a
//! scheduling point, a virtual clock).
pub use ::std::*;

pub mod mc;
pub mod sync;
pub mod thread;
pub mod time;
