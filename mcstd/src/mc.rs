//! The explorer: one execution = one real OS thread running every modelled thread as a fiber;
//! every synchronisation operation is a scheduling point; the schedule (and every environment
//! choice made with [`choose`]) is a list of small numbers, so executions replay exactly.
//!
//! `explore` enumerates, depth first, every execution whose number of deviations from the default
//! schedule is within the bound.  The default schedule runs the current thread until it blocks and
//! then the next runnable thread in round-robin order; running any other thread costs one
//! deviation (delay bounding).  `choose` alternatives cost nothing: all are explored.

use ::std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::VecDeque,
    panic::{AssertUnwindSafe, catch_unwind},
    rc::Rc,
    string::String,
    sync::{
        Arc, Condvar, Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
    },
    time::Duration,
};

use corosensei::{Coroutine, CoroutineResult, Yielder, stack::DefaultStack};

const STACK: usize = 512 * 1024;

#[derive(Clone, Debug)]
pub struct Config {
    /// Deviations from the default schedule allowed in one execution.
    pub bound: usize,
    /// Also let the earliest timer fire although threads are runnable (costs one deviation).
    pub timers: bool,
    /// Scheduling points in one execution before it is declared livelocked.
    pub max_steps: u64,
    pub workers: usize,
    /// Stop pushing new work after this many executions (reported as a cap).
    pub max_executions: u64,
    pub max_seconds: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            bound: 1,
            timers: false,
            max_steps: 2_000_000,
            workers: ::std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
            max_executions: u64::MAX,
            max_seconds: u64::MAX,
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct Choice {
    picked: u16,
    n: u16,
    /// deviations spent before this choice
    spent: u16,
    sched: bool,
}

struct Task {
    name: Option<Arc<str>>,
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    wait: Option<*const dyn Fn() -> bool>,
    idle: bool,
    deadline: Option<u64>,
    timed_out: bool,
    finished: Rc<Cell<bool>>,
}

struct Exec {
    tasks: RefCell<Vec<Task>>,
    cur: Cell<usize>,
    next: Cell<usize>,
    clock: Cell<u64>,
    steps: Cell<u64>,
    prefix: Vec<u16>,
    trace: RefCell<Vec<Choice>>,
    spent: Cell<u16>,
    cfg: Config,
    quiet: Cell<bool>,
    deviate: Cell<bool>,
    stop: RefCell<Option<String>>,
    log: RefCell<Vec<String>>,
    panics: RefCell<Vec<String>>,
    covered: RefCell<Vec<(&'static str, u64)>>,
    outcome: RefCell<String>,
}

thread_local! {
    static CUR: Cell<*const Exec> = const { Cell::new(core::ptr::null()) };
    static FREE_CLOCK: Cell<u64> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static STACKS: Mutex<Vec<DefaultStack>> = Mutex::new(Vec::new());

fn exec() -> Option<&'static Exec> {
    let p = CUR.with(|c| c.get());
    if p.is_null() { None } else { Some(unsafe { &*p }) }
}

pub fn in_execution() -> bool {
    exec().is_some()
}

/// Virtual nanoseconds since the start of the execution (outside one: a per-thread settable clock).
pub fn now() -> u64 {
    match exec() {
        Some(e) => e.clock.get(),
        None => FREE_CLOCK.with(|c| c.get()),
    }
}
/// Sets the clock used outside executions.
pub fn set_free_clock(ns: u64) {
    FREE_CLOCK.with(|c| c.set(ns));
}
pub fn deadline(d: Duration) -> u64 {
    now().saturating_add(u64::try_from(d.as_nanos()).unwrap_or(u64::MAX))
}

pub fn current_task() -> (usize, Option<Arc<str>>) {
    match exec() {
        Some(e) => (e.cur.get(), e.tasks.borrow()[e.cur.get()].name.clone()),
        None => (0, None),
    }
}

pub struct TaskRef {
    id: usize,
    finished: Rc<Cell<bool>>,
}
// All fibers of an execution live on one OS thread.
unsafe impl Send for TaskRef {}
unsafe impl Sync for TaskRef {}
impl TaskRef {
    pub fn finished(&self) -> bool {
        self.finished.get()
    }
    pub fn id(&self) -> usize {
        self.id
    }
}

struct SendPtr<T: ?Sized>(*const T);
unsafe impl<T: ?Sized> Send for SendPtr<T> {}

/// A scheduling point.
pub fn point() {
    if exec().is_some() {
        wait_until(&|| true, None);
    }
}
pub fn sleep(d: Duration) {
    if exec().is_none() {
        FREE_CLOCK.with(|c| c.set(deadline(d)));
        return;
    }
    wait_until(&|| false, Some(deadline(d)));
}

/// Blocks the current thread until `pred` holds (true) or the deadline has passed (false).
pub fn wait_until(pred: &dyn Fn() -> bool, deadline: Option<u64>) -> bool {
    wait_inner(pred, deadline, false)
}

fn wait_inner(pred: &dyn Fn() -> bool, deadline: Option<u64>, idle: bool) -> bool {
    let Some(e) = exec() else {
        let mut spins = 0u64;
        loop {
            if pred() {
                return true;
            }
            if let Some(d) = deadline {
                FREE_CLOCK.with(|c| c.set(c.get().max(d)));
                return pred();
            }
            spins += 1;
            if spins > 200_000_000 {
                panic!("mcstd: blocked forever outside an execution");
            }
            ::std::thread::yield_now();
        }
    };
    if ::std::thread::panicking() && pred() {
        return true; // no switch while unwinding
    }
    if e.stop.borrow().is_some() {
        if pred() {
            return true;
        }
        // the execution is over; park for good
    }
    e.steps.set(e.steps.get() + 1);
    let cur = e.cur.get();
    {
        let mut tasks = e.tasks.borrow_mut();
        let t = &mut tasks[cur];
        let p: *const dyn Fn() -> bool = pred;
        // SAFETY: the frame that owns `pred` outlives the wait
        t.wait = Some(unsafe { core::mem::transmute::<*const dyn Fn() -> bool, *const dyn Fn() -> bool>(p) });
        t.idle = idle;
        t.deadline = deadline;
        t.timed_out = false;
    }
    let target = e.pick();
    if target != Some(cur) {
        e.next.set(target.unwrap_or(usize::MAX));
        let y = e.tasks.borrow()[cur].yielder;
        unsafe { (*y).suspend(()) };
    }
    let mut tasks = e.tasks.borrow_mut();
    let t = &mut tasks[cur];
    t.wait = None;
    t.deadline = None;
    t.idle = false;
    !core::mem::take(&mut t.timed_out)
}

impl Exec {
    fn enabled(&self, id: usize) -> bool {
        let (w, fin) = {
            let tasks = self.tasks.borrow();
            let t = &tasks[id];
            if t.idle {
                return false;
            }
            (t.wait, t.finished.get())
        };
        if fin {
            return false;
        }
        match w {
            None => true, // not started yet
            Some(p) => (unsafe { (*p)() }) || self.expired(id),
        }
    }

    fn expired(&self, id: usize) -> bool {
        self.tasks.borrow()[id].deadline.is_some_and(|d| d <= self.clock.get())
    }

    /// Decides which thread runs next; None ends the execution.
    fn pick(&self) -> Option<usize> {
        if self.stop.borrow().is_some() {
            return None;
        }
        if self.steps.get() > self.cfg.max_steps {
            self.halt(format!("livelock: more than {} scheduling points", self.cfg.max_steps));
            return None;
        }
        let n = self.tasks.borrow().len();
        let cur = self.cur.get();
        let mut en: Vec<usize> = Vec::with_capacity(n);
        for k in 0..n {
            let id = (cur + k) % n;
            if self.enabled(id) {
                en.push(id);
            }
        }
        let timer = |this: &Exec| -> Option<usize> {
            let tasks = this.tasks.borrow();
            (0..n)
                .filter(|&i| !tasks[i].finished.get() && tasks[i].deadline.is_some())
                .min_by_key(|&i| (tasks[i].deadline.unwrap(), i))
        };
        if en.is_empty() {
            let idle = {
                let tasks = self.tasks.borrow();
                (0..n).find(|&i| tasks[i].idle && !tasks[i].finished.get())
            };
            if let Some(i) = idle {
                return Some(i);
            }
            if self.quiet.get() {
                self.halt(String::new());
                return None;
            }
            return match timer(self) {
                Some(i) => {
                    self.fire(i);
                    Some(i)
                }
                None => {
                    let names: Vec<String> = {
                        let tasks = self.tasks.borrow();
                        (0..n)
                            .filter(|&i| !tasks[i].finished.get())
                            .map(|i| format!("{}:{}", i, tasks[i].name.as_deref().unwrap_or("?")))
                            .collect()
                    };
                    self.halt(format!("deadlock: every thread is blocked for ever ({})", names.join(", ")));
                    None
                }
            };
        }
        let mut alts = en.len();
        let mut extra = None;
        if self.cfg.timers && !self.quiet.get() && self.deviate.get() {
            extra = timer(self).filter(|i| !en.contains(i));
            if extra.is_some() {
                alts += 1;
            }
        }
        let k = if alts > 1 && !self.quiet.get() && self.deviate.get() && self.cfg.bound > 0 { self.decide(alts, true) } else { 0 };
        if k < en.len() {
            let id = en[k];
            let w = self.tasks.borrow()[id].wait;
            if let Some(p) = w
                && self.expired(id)
                && !unsafe { (*p)() }
            {
                self.tasks.borrow_mut()[id].timed_out = true;
            }
            Some(id)
        } else {
            let i = extra.unwrap();
            self.fire(i);
            Some(i)
        }
    }

    fn fire(&self, i: usize) {
        let mut tasks = self.tasks.borrow_mut();
        let d = tasks[i].deadline.unwrap();
        self.clock.set(self.clock.get().max(d));
        tasks[i].timed_out = true;
    }

    fn halt(&self, why: String) {
        let mut s = self.stop.borrow_mut();
        if s.is_none() {
            *s = Some(why);
        }
    }

    fn decide(&self, n: usize, sched: bool) -> usize {
        let mut trace = self.trace.borrow_mut();
        let at = trace.len();
        let picked = if at < self.prefix.len() { self.prefix[at] } else { 0 };
        if picked as usize >= n {
            drop(trace);
            self.halt(format!("DIVERGENCE: choice {at} is {picked} of {n}"));
            return 0;
        }
        trace.push(Choice { picked, n: n as u16, spent: self.spent.get(), sched });
        if sched && picked != 0 {
            self.spent.set(self.spent.get() + 1);
        }
        picked as usize
    }
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    let at = LAST_PANIC.with(|l| core::mem::take(&mut *l.borrow_mut()));
    if at.is_empty() {
        if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    } else {
        at
    }
}

/// Records panics instead of printing them.
/// What the last panic of this thread said, and where.
pub fn last_panic() -> String {
    LAST_PANIC.try_with(|l| l.borrow().clone()).unwrap_or_default()
}
pub fn install_hook() {
    ::std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        let quiet = LAST_PANIC.try_with(|l| *l.borrow_mut() = s.clone()).is_ok();
        if !quiet || ::std::env::var("MC_PANICS").is_ok() {
            eprintln!("{s}");
        }
    }));
}

/// Starts a modelled thread.  `body` returns the text of its panic, if it panicked.
pub fn spawn(name: Option<Arc<str>>, body: Box<dyn FnOnce() -> Option<String>>) -> TaskRef {
    let e = exec().expect("mcstd: thread spawned outside an execution");
    let finished = Rc::new(Cell::new(false));
    let id = e.tasks.borrow().len();
    let fin = finished.clone();
    let stack = STACKS.lock().unwrap().pop().unwrap_or_else(|| DefaultStack::new(STACK).unwrap());
    let nm = name.clone();
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        let e = exec().unwrap();
        e.tasks.borrow_mut()[id].yielder = y;
        let note = body();
        if let Some(msg) = note {
            e.panics.borrow_mut().push(format!("thread {} panicked: {}", nm.as_deref().unwrap_or("?"), msg));
        }
        fin.set(true);
        let target = if id == 0 {
            e.quiet.set(true);
            e.pick()
        } else {
            e.pick()
        };
        e.next.set(target.unwrap_or(usize::MAX));
    });
    e.tasks.borrow_mut().push(Task {
        name,
        co: Some(co),
        yielder: core::ptr::null(),
        wait: None,
        idle: false,
        deadline: None,
        timed_out: false,
        finished: finished.clone(),
    });
    TaskRef { id, finished }
}

// ------------------------------------------------------------------------------- for harnesses

/// An environment choice among n; every alternative is explored.
pub fn choose(n: usize) -> usize {
    assert!(n > 0 && n < 65536);
    if n == 1 {
        return 0;
    }
    exec().expect("choose outside an execution").decide(n, false)
}
pub fn choose_bool() -> bool {
    choose(2) == 1
}
/// Runs the other threads until none of them can run without the clock advancing.
pub fn quiesce() {
    if exec().is_some() {
        wait_inner(&|| false, None, true);
    }
}
/// Lets d of virtual time pass (timers fire in order), then quiesces.
pub fn advance(d: Duration) {
    sleep(d);
    quiesce();
}
/// Turns schedule deviations off / on (for set-up and tear-down code that is not the subject).
pub fn set_quiet(q: bool) {
    if let Some(e) = exec() {
        e.quiet.set(q);
    }
}
/// While off, threads follow the default schedule (the prefix of a history whose end is the subject).
pub fn set_deviations(on: bool) {
    if let Some(e) = exec() {
        e.deviate.set(on);
    }
}
/// A line for the replay file.
pub fn log(s: impl Into<String>) {
    if let Some(e) = exec() {
        e.log.borrow_mut().push(s.into());
    }
}
/// Counts something the execution reached, for the evidence.
pub fn cover(what: &'static str) {
    if let Some(e) = exec() {
        let mut c = e.covered.borrow_mut();
        match c.iter_mut().find(|x| x.0 == what) {
            Some(x) => x.1 += 1,
            None => c.push((what, 1)),
        }
    }
}
/// What this execution looked like from outside; distinct outcomes are counted.
pub fn outcome(s: impl Into<String>) {
    if let Some(e) = exec() {
        *e.outcome.borrow_mut() = s.into();
    }
}
/// Panics recorded so far in threads other than the main one.
pub fn thread_panics() -> Vec<String> {
    exec().map(|e| e.panics.borrow().clone()).unwrap_or_default()
}

/// Takes the recorded panics, so that they do not count as failures.
pub fn take_thread_panics() -> Vec<String> {
    exec().map(|e| core::mem::take(&mut *e.panics.borrow_mut())).unwrap_or_default()
}
/// Threads that have not ended.
pub fn live_threads() -> usize {
    exec().map(|e| e.tasks.borrow().iter().filter(|t| !t.finished.get()).count()).unwrap_or(0)
}

#[derive(Default, Debug)]
pub struct RunResult {
    pub trace: Vec<u16>,
    arity: Vec<(u16, u16, bool)>,
    pub error: Option<String>,
    pub engine_error: Option<String>,
    pub log: Vec<String>,
    pub steps: u64,
    pub covered: Vec<(&'static str, u64)>,
    pub outcome: String,
    pub leaked: usize,
    pub spent: u16,
}

/// Runs one execution on the calling OS thread, which must be fresh (its thread-locals are part of
/// the state).
fn run_here(cfg: &Config, prefix: Vec<u16>, body: &(dyn Fn() + Sync)) -> RunResult {
    let e = Exec {
        tasks: RefCell::new(Vec::new()),
        cur: Cell::new(0),
        next: Cell::new(0),
        clock: Cell::new(0),
        steps: Cell::new(0),
        prefix,
        trace: RefCell::new(Vec::new()),
        spent: Cell::new(0),
        cfg: cfg.clone(),
        quiet: Cell::new(false),
        deviate: Cell::new(true),
        stop: RefCell::new(None),
        log: RefCell::new(Vec::new()),
        panics: RefCell::new(Vec::new()),
        covered: RefCell::new(Vec::new()),
        outcome: RefCell::new(String::new()),
    };
    CUR.with(|c| c.set(&e));
    let main_error: Rc<RefCell<Option<String>>> = Default::default();
    let me = main_error.clone();
    let body: &'static (dyn Fn() + Sync) = unsafe { core::mem::transmute(body) };
    spawn(
        Some("main".into()),
        Box::new(move || {
            if let Err(p) = catch_unwind(AssertUnwindSafe(body)) {
                *me.borrow_mut() = Some(panic_text(&*p));
                exec().unwrap().halt(String::new());
            }
            None
        }),
    );
    let mut next = 0usize;
    while next != usize::MAX {
        e.cur.set(next);
        let mut co = e.tasks.borrow_mut()[next].co.take().expect("fiber");
        e.next.set(usize::MAX);
        match co.resume(()) {
            CoroutineResult::Yield(()) => {
                let id = next;
                e.tasks.borrow_mut()[id].co = Some(co);
            }
            CoroutineResult::Return(()) => {
                STACKS.lock().unwrap().push(co.into_stack());
            }
        }
        next = e.next.get();
    }
    CUR.with(|c| c.set(core::ptr::null()));
    let mut leaked = 0;
    for t in e.tasks.borrow_mut().iter_mut() {
        if let Some(co) = t.co.take() {
            leaked += 1;
            core::mem::forget(co);
        }
    }
    let stop = e.stop.borrow_mut().take().unwrap_or_default();
    let mut r = RunResult {
        trace: e.trace.borrow().iter().map(|c| c.picked).collect(),
        arity: e.trace.borrow().iter().map(|c| (c.n, c.spent, c.sched)).collect(),
        log: e.log.take(),
        steps: e.steps.get(),
        covered: e.covered.take(),
        outcome: e.outcome.take(),
        spent: e.spent.get(),
        leaked,
        ..Default::default()
    };
    let prefix_len = e.prefix.len();
    if stop.starts_with("DIVERGENCE") || r.trace.len() < prefix_len {
        r.engine_error = Some(format!("{stop} (replayed {} of {prefix_len} choices)", r.trace.len()));
    }
    r.error = main_error.borrow_mut().take();
    if r.error.is_none() && !e.panics.borrow().is_empty() {
        r.error = Some(e.panics.borrow().join("; "));
    }
    if r.error.is_none() && !stop.is_empty() {
        r.error = Some(stop);
    }
    r
}

pub fn run_once(cfg: &Config, prefix: Vec<u16>, body: &(dyn Fn() + Sync)) -> RunResult {
    let p = SendPtr(&raw const *body);
    let body: SendPtr<dyn Fn() + Sync> = p;
    ::std::thread::scope(|s| {
        ::std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(s, move || {
                let body = body;
                run_here(cfg, prefix, unsafe { &*body.0 })
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

#[derive(Default, Debug)]
pub struct Report {
    pub executions: u64,
    pub steps: u64,
    pub choice_points: u64,
    pub max_trace: usize,
    pub outcomes: ::std::collections::BTreeMap<String, u64>,
    pub covered: ::std::collections::BTreeMap<&'static str, u64>,
    pub leaked: u64,
    pub capped: Option<String>,
    pub violation: Option<Violation>,
    pub engine_error: Option<String>,
    pub sample: Vec<Vec<u16>>,
    pub bound: usize,
}
#[derive(Debug, Clone)]
pub struct Violation {
    pub message: String,
    pub choices: Vec<u16>,
    pub log: Vec<String>,
    pub deviations: u16,
}

struct Job {
    base: Arc<Vec<u16>>,
    len: usize,
    alt: u16,
}

/// One execution taking longer than this (real time) makes no progress: reported as a violation.
pub const HANG_SECS: u64 = 60;

struct Pool {
    jobs: VecDeque<Job>,
    running: usize,
    stop: bool,
}

pub fn explore(cfg: &Config, body: &(dyn Fn() + Sync)) -> Report {
    let started = ::std::time::Instant::now();
    let pool = Mutex::new(Pool {
        jobs: VecDeque::from([Job { base: Arc::new(vec![]), len: 0, alt: u16::MAX }]),
        running: 0,
        stop: false,
    });
    let cv = Condvar::new();
    let report = Mutex::new(Report { bound: cfg.bound, ..Default::default() });
    let count = AtomicU64::new(0);
    let stopping = AtomicBool::new(false);
    let done_workers = AtomicUsize::new(0);
    // what each worker is running, and since which waking of the watcher (a machine that stands
    // still must not look like an execution that does)
    let wakings = AtomicU64::new(0);
    let slots: Vec<Mutex<Option<(u64, Vec<u16>)>>> = (0..cfg.workers).map(|_| Mutex::new(None)).collect();
    ::std::thread::scope(|s| {
        for w in 0..cfg.workers {
            let (pool, cv, report, count, stopping, slots, done_workers, wakings) = (&pool, &cv, &report, &count, &stopping, &slots, &done_workers, &wakings);
            s.spawn(move || {
                loop {
                    let job = {
                        let mut p = pool.lock().unwrap();
                        loop {
                            if p.stop {
                                break None;
                            }
                            if let Some(j) = p.jobs.pop_back() {
                                p.running += 1;
                                break Some(j);
                            }
                            if p.running == 0 {
                                cv.notify_all();
                                break None;
                            }
                            p = cv.wait(p).unwrap();
                        }
                    };
                    let Some(job) = job else { break };
                    let mut prefix = job.base[..job.len].to_vec();
                    if job.alt != u16::MAX {
                        prefix.push(job.alt);
                    }
                    let plen = prefix.len();
                    *slots[w].lock().unwrap() = Some((wakings.load(SeqCst), prefix.clone()));
                    let r = run_once(cfg, prefix, body);
                    *slots[w].lock().unwrap() = None;
                    let n = count.fetch_add(1, SeqCst) + 1;
                    let mut kids = Vec::new();
                    if r.error.is_none() && r.engine_error.is_none() {
                        let base = Arc::new(r.trace.clone());
                        for i in plen..r.trace.len() {
                            let (n, spent, sched) = r.arity[i];
                            if sched && spent as usize >= cfg.bound {
                                continue;
                            }
                            for alt in 1..n {
                                kids.push(Job { base: base.clone(), len: i, alt });
                            }
                        }
                    }
                    let mut stop_now = false;
                    {
                        let mut rep = report.lock().unwrap();
                        rep.executions += 1;
                        rep.steps += r.steps;
                        rep.choice_points += r.trace.len() as u64;
                        rep.max_trace = rep.max_trace.max(r.trace.len());
                        rep.leaked += r.leaked as u64;
                        for (k, v) in &r.covered {
                            *rep.covered.entry(k).or_default() += v;
                        }
                        if rep.outcomes.len() < 100_000 || rep.outcomes.contains_key(&r.outcome) {
                            *rep.outcomes.entry(r.outcome.clone()).or_default() += 1;
                        }
                        if rep.sample.len() < 3 {
                            rep.sample.push(r.trace.clone());
                        }
                        if let Some(m) = r.engine_error {
                            rep.engine_error.get_or_insert(m);
                            stop_now = true;
                        } else if let Some(m) = r.error {
                            let better = match &rep.violation {
                                None => true,
                                Some(v) => (r.spent, r.trace.len()) < (v.deviations, v.choices.len()),
                            };
                            if better {
                                let mut choices = r.trace.clone();
                                while choices.last() == Some(&0) {
                                    choices.pop();
                                }
                                rep.violation = Some(Violation { message: m, choices, log: r.log, deviations: r.spent });
                            }
                            stop_now = true;
                        } else if n >= cfg.max_executions {
                            rep.capped.get_or_insert(format!("{} executions", cfg.max_executions));
                            stop_now = true;
                        } else if started.elapsed().as_secs() >= cfg.max_seconds {
                            rep.capped.get_or_insert(format!("{} s", cfg.max_seconds));
                            stop_now = true;
                        } else if rep.leaked > 200_000 {
                            rep.engine_error.get_or_insert("too many leaked fibers".into());
                            stop_now = true;
                        }
                    }
                    let mut p = pool.lock().unwrap();
                    p.running -= 1;
                    p.jobs.extend(kids);
                    if stop_now {
                        p.stop = true;
                        stopping.store(true, SeqCst);
                    }
                    drop(p);
                    cv.notify_all();
                }
                done_workers.fetch_add(1, SeqCst);
            });
        }
        let (slots, report, done_workers, wakings) = (&slots, &report, &done_workers, &wakings);
        let nw = cfg.workers;
        s.spawn(move || {
            while done_workers.load(SeqCst) < nw {
                ::std::thread::sleep(Duration::from_millis(20));
                let now = wakings.fetch_add(1, SeqCst) + 1;
                for sl in slots {
                    let g = sl.lock().unwrap();
                    if let Some((t, p)) = &*g {
                        if now.saturating_sub(*t) > HANG_SECS * 50 {
                            let mut rep = report.lock().unwrap();
                            rep.violation.get_or_insert(Violation {
                                message: format!("an execution did not end within {HANG_SECS} s of real time"),
                                choices: p.clone(),
                                log: vec![],
                                deviations: 0,
                            });
                            if let Some(h) = HANG.get() {
                                h(&rep);
                            }
                            eprintln!("hang; prefix {:?}", p);
                            ::std::process::exit(3);
                        }
                    }
                }
            }
        });
    });
    report.into_inner().unwrap()
}

/// Called (and expected not to return) when an execution hangs.
pub static HANG: ::std::sync::OnceLock<fn(&Report)> = ::std::sync::OnceLock::new();

/// Explores with bounds 0, 1, .. cfg.bound, so that the first counterexample has fewest deviations.
pub fn explore_iterative(cfg: &Config, body: &(dyn Fn() + Sync)) -> Report {
    let mut last = None;
    for b in 0..=cfg.bound {
        let c = Config { bound: b, ..cfg.clone() };
        let r = explore(&c, body);
        let end = r.violation.is_some() || r.engine_error.is_some() || r.capped.is_some();
        last = Some(r);
        if end {
            break;
        }
    }
    last.unwrap()
}
