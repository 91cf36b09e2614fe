use ::std::{
    cell::{Cell, UnsafeCell},
    collections::VecDeque,
    fmt,
    ops::{Deref, DerefMut},
    sync::{
        Arc, LockResult, Mutex as RealMutex, PoisonError, TryLockError, TryLockResult,
        atomic::{AtomicBool, AtomicIsize, Ordering::SeqCst},
    },
    thread::panicking,
    time::Duration,
};

use crate::mc;

// ---------------------------------------------------------------------------------------- Mutex

pub struct Mutex<T: ?Sized> {
    locked: AtomicBool,
    poisoned: AtomicBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    m: &'a Mutex<T>,
    was_panicking: bool,
    _not_send: core::marker::PhantomData<Cell<*const ()>>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { locked: AtomicBool::new(false), poisoned: AtomicBool::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(SeqCst);
        let d = self.data.into_inner();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn acquire(&self) {
        loop {
            mc::wait_until(&|| !self.locked.load(SeqCst), None);
            if !self.locked.swap(true, SeqCst) {
                return;
            }
        }
    }
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { m: self, was_panicking: panicking(), _not_send: Default::default() };
        if self.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.acquire();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        mc::point();
        if self.locked.swap(true, SeqCst) {
            return Err(TryLockError::WouldBlock);
        }
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.poisoned.store(false, SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.load(SeqCst);
        let d = self.data.get_mut();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.locked.load(SeqCst) {
            f.write_str("Mutex { <locked> }")
        } else {
            f.debug_struct("Mutex").field("data", &unsafe { &*self.data.get() }).finish()
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.was_panicking && panicking() {
            self.m.poisoned.store(true, SeqCst);
        }
        self.m.locked.store(false, SeqCst);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// -------------------------------------------------------------------------------------- Condvar

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

#[derive(Default)]
pub struct Condvar {
    waiters: RealMutex<VecDeque<Arc<AtomicBool>>>,
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { waiters: RealMutex::new(VecDeque::new()) }
    }
    fn wait_inner<'a, T>(&self, guard: MutexGuard<'a, T>, d: Option<Duration>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = guard.m;
        let ticket = Arc::new(AtomicBool::new(false));
        self.waiters.lock().unwrap().push_back(ticket.clone());
        drop(guard);
        let ok = mc::wait_until(&|| ticket.load(SeqCst), d.map(mc::deadline));
        if !ok {
            self.waiters.lock().unwrap().retain(|t| !Arc::ptr_eq(t, &ticket));
        }
        m.acquire();
        (m.guard(), !ok)
    }
    pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_inner(guard, None).0
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut condition: F) -> LockResult<MutexGuard<'a, T>> {
        while condition(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn wait_timeout<'a, T>(&self, guard: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        match self.wait_inner(guard, Some(d)) {
            (Ok(g), t) => Ok((g, WaitTimeoutResult(t))),
            (Err(p), t) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, d: Duration, mut condition: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = mc::deadline(d);
        loop {
            if !condition(&mut *guard) {
                return Ok((guard, WaitTimeoutResult(false)));
            }
            let now = mc::now();
            if now >= end {
                return Ok((guard, WaitTimeoutResult(true)));
            }
            guard = self.wait_timeout(guard, Duration::from_nanos(end - now))?.0;
        }
    }
    pub fn notify_one(&self) {
        mc::point();
        if let Some(t) = self.waiters.lock().unwrap().pop_front() {
            t.store(true, SeqCst);
        }
    }
    pub fn notify_all(&self) {
        mc::point();
        for t in self.waiters.lock().unwrap().drain(..) {
            t.store(true, SeqCst);
        }
    }
}

// --------------------------------------------------------------------------------------- RwLock

/// state: -1 writer, n>0 readers.  A reader is admitted whenever no writer holds the lock.
pub struct RwLock<T: ?Sized> {
    state: AtomicIsize,
    poisoned: AtomicBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized + 'a>(&'a RwLock<T>, core::marker::PhantomData<Cell<*const ()>>);
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a>(&'a RwLock<T>, bool, core::marker::PhantomData<Cell<*const ()>>);
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { state: AtomicIsize::new(0), poisoned: AtomicBool::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(SeqCst);
        let d = self.data.into_inner();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn res<G>(&self, g: G) -> LockResult<G> {
        if self.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        loop {
            mc::wait_until(&|| self.state.load(SeqCst) >= 0, None);
            let s = self.state.load(SeqCst);
            if s >= 0 && self.state.compare_exchange(s, s + 1, SeqCst, SeqCst).is_ok() {
                return self.res(RwLockReadGuard(self, Default::default()));
            }
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        loop {
            mc::wait_until(&|| self.state.load(SeqCst) == 0, None);
            if self.state.compare_exchange(0, -1, SeqCst, SeqCst).is_ok() {
                return self.res(RwLockWriteGuard(self, panicking(), Default::default()));
            }
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        mc::point();
        let s = self.state.load(SeqCst);
        if s >= 0 && self.state.compare_exchange(s, s + 1, SeqCst, SeqCst).is_ok() {
            return self.res(RwLockReadGuard(self, Default::default())).map_err(TryLockError::Poisoned);
        }
        Err(TryLockError::WouldBlock)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        mc::point();
        if self.state.compare_exchange(0, -1, SeqCst, SeqCst).is_ok() {
            return self.res(RwLockWriteGuard(self, panicking(), Default::default())).map_err(TryLockError::Poisoned);
        }
        Err(TryLockError::WouldBlock)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.poisoned.store(false, SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.load(SeqCst);
        let d = self.data.get_mut();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(self) -> RwLockReadGuard<'a, T> {
        let lock = self.0;
        ::std::mem::forget(self);
        lock.state.store(1, SeqCst);
        RwLockReadGuard(lock, Default::default())
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.state.load(SeqCst) < 0 {
            f.write_str("RwLock { <locked> }")
        } else {
            f.debug_struct("RwLock").field("data", &unsafe { &*self.data.get() }).finish()
        }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.state.fetch_sub(1, SeqCst);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 && panicking() {
            self.0.poisoned.store(true, SeqCst);
        }
        self.0.state.store(0, SeqCst);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// -------------------------------------------------------------------------------------- Barrier

pub struct Barrier {
    n: usize,
    state: RealMutex<(usize, usize)>,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { n, state: RealMutex::new((0, 0)) }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        mc::point();
        let generation = {
            let mut s = self.state.lock().unwrap();
            s.0 += 1;
            if s.0 >= self.n {
                s.0 = 0;
                s.1 += 1;
                return BarrierWaitResult(true);
            }
            s.1
        };
        mc::wait_until(&|| self.state.lock().unwrap().1 != generation, None);
        BarrierWaitResult(false)
    }
}
