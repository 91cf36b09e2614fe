pub use ::std::thread::*;
use ::std::{
    any::Any,
    io,
    sync::{Arc, Mutex as RealMutex},
    time::Duration,
};

use crate::mc;

pub type Result<T> = ::std::result::Result<T, Box<dyn Any + Send + 'static>>;

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(u64);

#[derive(Clone, Debug)]
pub struct Thread {
    id: ThreadId,
    name: Option<Arc<str>>,
}
impl Thread {
    pub fn id(&self) -> ThreadId {
        self.id
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
}

pub fn current() -> Thread {
    let (id, name) = mc::current_task();
    Thread { id: ThreadId(id as u64), name }
}

pub fn sleep(d: Duration) {
    mc::sleep(d);
}
pub fn yield_now() {
    mc::point();
}

pub struct JoinHandle<T> {
    task: mc::TaskRef,
    slot: Arc<RealMutex<Option<Result<T>>>>,
    thread: Thread,
}
impl<T> core::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_struct("JoinHandle").finish_non_exhaustive()
    }
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        mc::wait_until(&|| self.task.finished(), None);
        self.slot.lock().unwrap().take().expect("joined task has a result")
    }
    pub fn is_finished(&self) -> bool {
        mc::point();
        self.task.finished()
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder { name: None }
    }
    pub fn name(mut self, name: String) -> Builder {
        self.name = Some(name);
        self
    }
    pub fn stack_size(self, _size: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let slot = Arc::new(RealMutex::new(None));
        let slot2 = slot.clone();
        let name: Option<Arc<str>> = self.name.map(|n| n.into());
        let task = mc::spawn(
            name.clone(),
            Box::new(move || {
                let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
                let note = match &r {
                    Ok(_) => None,
                    Err(p) => Some(mc::panic_text(&**p)),
                };
                *slot2.lock().unwrap() = Some(r);
                note
            }),
        );
        let id = ThreadId(task.id() as u64);
        mc::point();
        Ok(JoinHandle { task, slot, thread: Thread { id, name } })
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}
