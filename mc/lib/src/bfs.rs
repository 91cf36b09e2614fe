//! Explicit-state breadth-first search where every transition calls the real code.  Objects of the
//! code under test are seldom clonable, so a state is the list of action indices that leads to it
//! and is rebuilt by replaying it on fresh objects; states are merged by `key`.
use std::{
    collections::{BTreeMap, HashSet},
    hash::{DefaultHasher, Hash, Hasher},
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
    },
    time::{Duration, Instant},
};

use crate::guarded;

pub trait System {
    /// Number of actions enabled here (indices 0..n).
    fn actions(&mut self) -> usize;
    /// Performs action i; Err is a violation.
    fn apply(&mut self, i: usize) -> Result<(), String>;
    /// Canonical form of everything that determines the future.
    fn key(&self) -> String;
    /// The action in words (before applying it).
    fn describe(&mut self, i: usize) -> String;
    /// Checked once in every distinct state, on an object of its own (may destroy it).
    fn check_state(self) -> Result<(), String>
    where
        Self: Sized,
    {
        Ok(())
    }
    fn has_state_check() -> bool {
        false
    }
    /// Interesting situations this state has been in, for the evidence.
    fn reached(&self) -> Vec<&'static str> {
        vec![]
    }
}

#[derive(Clone, Debug)]
pub struct Limits {
    pub depth: usize,
    pub max_states: u64,
    pub max_seconds: f64,
}
impl Limits {
    pub fn depth(d: usize) -> Limits {
        Limits { depth: d, max_states: 20_000_000, max_seconds: 700.0 }
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub message: String,
    pub choices: Vec<u16>,
    pub log: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub replays: u64,
    pub depth: usize,
    pub levels: Vec<u64>,
    pub terminal: u64,
    pub capped: Option<String>,
    pub violation: Option<Violation>,
    pub samples: Vec<Vec<String>>,
    pub covered: BTreeMap<&'static str, u64>,
    pub seconds: f64,
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
}

pub fn h128(s: &str) -> u128 {
    let mut a = DefaultHasher::new();
    s.hash(&mut a);
    let mut b = DefaultHasher::new();
    (0x5bd1e995u64, s).hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

pub fn replay<S: System>(make: &(impl Fn() -> S + Sync), choices: &[u16]) -> (Option<String>, Vec<String>) {
    let mut log = vec![];
    let r = guarded(|| {
        let mut s = make();
        for &c in choices {
            let n = s.actions();
            if c as usize >= n {
                return Err(format!("replay diverged: action {c} of {n}"));
            }
            log.push(s.describe(c as usize));
            s.apply(c as usize)?;
        }
        if S::has_state_check() {
            s.check_state()?;
        }
        Ok(())
    });
    (r.err(), log)
}

struct Node {
    parent: u32,
    act: u16,
}

pub fn search<S: System>(lim: &Limits, make: &(impl Fn() -> S + Sync)) -> Stats {
    let t0 = Instant::now();
    let mut st = Stats::default();
    const SHARDS: usize = 64;
    let seen: Vec<Mutex<HashSet<u128>>> = (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
    // arena of states: parent pointers
    let mut arena: Vec<Node> = vec![Node { parent: u32::MAX, act: 0 }];
    let k = watched(|| {
        let root = make();
        h128(&root.key())
    });
    seen[(k % SHARDS as u128) as usize].lock().unwrap().insert(k);
    let mut level: Vec<u32> = vec![0];
    st.states = 1;
    st.levels.push(1);
    let viol: Mutex<Option<Violation>> = Mutex::new(None);
    let transitions = AtomicU64::new(0);
    let replays = AtomicU64::new(0);
    let terminal = AtomicU64::new(0);
    let covered: Mutex<BTreeMap<&'static str, u64>> = Default::default();

    let path = |arena: &Vec<Node>, mut i: u32| -> Vec<u16> {
        let mut p = vec![];
        while arena[i as usize].parent != u32::MAX {
            p.push(arena[i as usize].act);
            i = arena[i as usize].parent;
        }
        p.reverse();
        p
    };
    if S::has_state_check() {
        if let Err(m) = watched(|| guarded(|| make().check_state())) {
            st.violation = Some(Violation { message: m, choices: vec![], log: vec![] });
            return st;
        }
    }
    for depth in 0..lim.depth {
        if level.is_empty() {
            break;
        }
        let next: Mutex<Vec<(u32, u16)>> = Mutex::new(vec![]);
        let idx = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let out_of_time = AtomicBool::new(false);
        let new_states = AtomicU64::new(0);
        let base_states = st.states;
        watch(|slots| std::thread::scope(|sc| {
            for w in 0..workers() {
                let (arena, level, next, idx, stop, seen, viol, transitions, replays, terminal, covered, path, oot, new_states, slots) =
                    (&arena, &level, &next, &idx, &stop, &seen, &viol, &transitions, &replays, &terminal, &covered, &path, &out_of_time, &new_states, &slots);
                sc.spawn(move || {
                    let mut local: Vec<(u32, u16)> = vec![];
                    let mut cov: BTreeMap<&'static str, u64> = BTreeMap::new();
                    'outer: loop {
                        let i = idx.fetch_add(1, SeqCst);
                        if i >= level.len() || stop.load(SeqCst) {
                            break;
                        }
                        if t0.elapsed().as_secs_f64() > lim.max_seconds {
                            oot.store(true, SeqCst);
                            break;
                        }
                        if base_states + new_states.load(SeqCst) > lim.max_states {
                            oot.store(true, SeqCst);
                            break;
                        }
                        let p = path(arena, level[i]);
                        let rebuild = |p: &[u16]| -> Result<S, String> {
                            let mut s = make();
                            for &c in p {
                                let n = s.actions();
                                if c as usize >= n {
                                    crate::die("replay of a known history diverged");
                                }
                                s.apply(c as usize)?;
                            }
                            replays.fetch_add(1, SeqCst);
                            Ok(s)
                        };
                        let mut n = None;
                        let mut a = 0;
                        loop {
                            if n.is_some_and(|n| a >= n) {
                                break;
                            }
                            let mut full = p.clone();
                            full.push(a as u16);
                            slots.begin(w, full);
                            let r = guarded(|| {
                                let mut s = match rebuild(&p) {
                                    Ok(s) => s,
                                    Err(e) => crate::die(&format!("a history failed only when replayed: {e}")),
                                };
                                let k = s.actions();
                                n = Some(k);
                                if k == 0 {
                                    return Ok(None);
                                }
                                s.apply(a)?;
                                let key = h128(&s.key());
                                Ok(Some((key, s.reached(), s)))
                            });
                            let r = match r {
                                Ok(None) => {
                                    terminal.fetch_add(1, SeqCst);
                                    slots.end(w);
                                    break;
                                }
                                Ok(Some((key, reached, s))) => {
                                    transitions.fetch_add(1, SeqCst);
                                    if seen[(key % SHARDS as u128) as usize].lock().unwrap().insert(key) {
                                        local.push((level[i], a as u16));
                                        new_states.fetch_add(1, SeqCst);
                                        for c in reached {
                                            *cov.entry(c).or_default() += 1;
                                        }
                                        if S::has_state_check() { guarded(|| s.check_state()) } else { Ok(()) }
                                    } else {
                                        Ok(())
                                    }
                                }
                                Err(m) => Err(m),
                            };
                            slots.end(w);
                            if let Err(m) = r {
                                let mut choices = p.clone();
                                choices.push(a as u16);
                                let mut v = viol.lock().unwrap();
                                if v.as_ref().is_none_or(|x| choices < x.choices) {
                                    *v = Some(Violation { message: m, choices, log: vec![] });
                                }
                                stop.store(true, SeqCst);
                                break 'outer;
                            }
                            a += 1;
                        }
                    }
                    next.lock().unwrap().extend(local);
                    let mut c = covered.lock().unwrap();
                    for (k, v) in cov {
                        *c.entry(k).or_default() += v;
                    }
                });
            }
        }), "", "");
        let mut nx = next.into_inner().unwrap();
        nx.sort_unstable();
        st.states += nx.len() as u64;
        st.depth = depth + 1;
        st.levels.push(nx.len() as u64);
        let first = arena.len() as u32;
        for (parent, act) in &nx {
            arena.push(Node { parent: *parent, act: *act });
        }
        level = (first..arena.len() as u32).collect();
        if viol.lock().unwrap().is_some() {
            break;
        }
        if out_of_time.load(SeqCst) {
            st.capped = Some(format!("stopped inside level {} after {:.0} s / {} states; levels below it are complete", depth + 1, t0.elapsed().as_secs_f64(), st.states));
            break;
        }
        if depth + 1 == lim.depth && !level.is_empty() {
            // a depth bound is part of the stated bounds, not a cap
        }
    }
    st.transitions = transitions.into_inner();
    st.replays = replays.into_inner();
    st.terminal = terminal.into_inner();
    st.covered = covered.into_inner().unwrap();
    for i in [arena.len() / 2, arena.len() - 1] {
        let p = path(&arena, i as u32);
        st.samples.push(replay(make, &p).1);
    }
    if let Some(mut v) = viol.into_inner().unwrap() {
        let (again, log) = replay(make, &v.choices);
        if again.is_none() {
            crate::die(&format!("a failure did not replay: {}", v.message));
        }
        v.log = log;
        st.violation = Some(v);
    }
    st.seconds = t0.elapsed().as_secs_f64();
    st
}

/// Watchdog: a single case that runs for a minute makes no progress. The minute is counted in
/// wakings of the watcher, so that a machine that stands still does not look like a case that does.
pub struct Slots(Vec<Mutex<Option<(u64, Vec<u16>)>>>, AtomicU64);
impl Slots {
    pub fn begin(&self, w: usize, c: Vec<u16>) {
        *self.0[w].lock().unwrap() = Some((self.1.load(SeqCst), c));
    }
    pub fn end(&self, w: usize) {
        *self.0[w].lock().unwrap() = None;
    }
}
pub fn watch(f: impl FnOnce(&Slots), id: &'static str, harness: &str) {
    let slots = Slots((0..workers()).map(|_| Mutex::new(None)).collect(), AtomicU64::new(0));
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let (slots, done) = (&slots, &done);
        let h = harness.to_string();
        s.spawn(move || {
            let mut ticks = 0u64;
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(if ticks < 50 { 1 } else { 20 }));
                ticks += 1;
                if ticks > 50 {
                    slots.1.fetch_add(1, SeqCst);
                }
                let wakings = slots.1.load(SeqCst);
                for sl in &slots.0 {
                    let g = sl.lock().unwrap();
                    if let Some((t, c)) = &*g
                        && wakings.saturating_sub(*t) > mcstd::mc::HANG_SECS * 50
                    {
                        if id.is_empty() {
                            let (i, hh) = current();
                            crate::hang_exit(i, &hh, "the code under test did not return within a minute", c.clone());
                        }
                        crate::hang_exit(id, &h, "the code under test did not return within a minute", c.clone());
                    }
                }
            }
        });
        f(slots);
        done.store(true, SeqCst);
    });
}
/// One case, watched (of the current check and harness).
pub fn watched<R>(f: impl FnOnce() -> R) -> R {
    let mut r = None;
    watch(|slots| {
        slots.begin(0, vec![]);
        r = Some(f());
        slots.end(0);
    }, "", "");
    r.unwrap()
}
static CUR: Mutex<Option<(&'static str, String)>> = Mutex::new(None);
pub fn set_current(id: &'static str, h: &str) {
    *CUR.lock().unwrap() = Some((id, h.into()));
}
fn current() -> (&'static str, String) {
    CUR.lock().unwrap().clone().unwrap_or(("?", "?".into()))
}
