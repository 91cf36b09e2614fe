//! Explicit-state search in which every transition is one execution of the real code: a state is the
//! list of choices that leads to it, a transition is that list and one more choice, run from the start.
use std::{
    collections::{BTreeMap, HashMap, hash_map::Entry},
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
    },
    time::Instant,
};

use crate::bfs::{Limits, Stats, Violation, h128, set_current, watch, watched, workers};

/// What a run of a choice list came to.
#[derive(Debug, Clone, Default)]
pub struct Step {
    /// the state; states with the same key are merged.  An empty key is never merged.
    pub key: String,
    /// how many choices there are from here
    pub arity: usize,
    pub reached: Vec<&'static str>,
}
#[derive(Debug, Clone)]
pub struct Fail {
    pub message: String,
    pub log: Vec<String>,
}
pub type Run<'a> = &'a (dyn Fn(&[u16]) -> (Result<Step, String>, Vec<String>) + Sync);

struct Node {
    parent: u32,
    act: u16,
    arity: u16,
}

pub fn search(lim: &Limits, id: &'static str, harness: &str, run: Run) -> Stats {
    let t0 = Instant::now();
    let mut st = Stats::default();
    set_current(id, harness);
    let (root, log) = watched(|| run(&[]));
    let (again, log2) = watched(|| run(&[]));
    let root = match root {
        Ok(r) => r,
        Err(m) => {
            st.violation = Some(Violation { message: m, choices: vec![], log });
            return st;
        }
    };
    if again.as_ref().map(|s| (&s.key, s.arity)) != Ok((&root.key, root.arity)) || log != log2 {
        crate::die(&format!("{harness}: the same history gave two different executions"));
    }
    const SHARDS: usize = 64;
    // key -> the smallest (level, state, choice) that leads to it: which history stands for a state does not
    // depend on timing
    type Way = (usize, u32, u16);
    let seen: Vec<Mutex<HashMap<u128, Way>>> = (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect();
    let mut arena = vec![Node { parent: u32::MAX, act: 0, arity: root.arity as u16 }];
    let mut level: Vec<u32> = vec![0];
    st.states = 1;
    st.levels.push(1);
    let viol: Mutex<Option<Violation>> = Mutex::new(None);
    let transitions = AtomicU64::new(0);
    let mut covered: BTreeMap<&'static str, u64> = Default::default();
    let path = |arena: &Vec<Node>, mut i: u32| -> Vec<u16> {
        let mut p = vec![];
        while arena[i as usize].parent != u32::MAX {
            p.push(arena[i as usize].act);
            i = arena[i as usize].parent;
        }
        p.reverse();
        p
    };
    for depth in 0..lim.depth {
        // the work of this level: (state, choice)
        let total: u64 = level.iter().map(|&i| arena[i as usize].arity as u64).sum();
        if total == 0 {
            break;
        }
        st.terminal += level.iter().filter(|&&i| arena[i as usize].arity == 0).count() as u64;
        let next: Mutex<Vec<(u32, u16, u16, u128, Vec<&'static str>)>> = Mutex::new(vec![]);
        let idx = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let oot = AtomicBool::new(false);
        let new_states = AtomicU64::new(0);
        let base = st.states;
        watch(|slots| std::thread::scope(|sc| {
            for w in 0..workers() {
                let (arena, level, next, idx, stop, oot, new_states, seen, viol, transitions, path, slots) =
                    (&arena, &level, &next, &idx, &stop, &oot, &new_states, &seen, &viol, &transitions, &path, &slots);
                sc.spawn(move || {
                    let mut local = vec![];
                    'outer: loop {
                        let i = idx.fetch_add(1, SeqCst);
                        if i >= level.len() || stop.load(SeqCst) {
                            break;
                        }
                        let p = path(arena, level[i]);
                        for a in 0..arena[level[i] as usize].arity {
                            if t0.elapsed().as_secs_f64() > lim.max_seconds || base + new_states.load(SeqCst) > lim.max_states {
                                oot.store(true, SeqCst);
                                break 'outer;
                            }
                            let mut c = p.clone();
                            c.push(a);
                            slots.begin(w, c.clone());
                            let (r, log) = run(&c);
                            slots.end(w);
                            transitions.fetch_add(1, SeqCst);
                            match r {
                                Ok(s) => {
                                    let way = (depth, level[i], a);
                                    let (new, better, k) = if s.key.is_empty() {
                                        (true, true, 0)
                                    } else {
                                        let k = h128(&s.key);
                                        let mut shard = seen[(k % SHARDS as u128) as usize].lock().unwrap();
                                        match shard.entry(k) {
                                            Entry::Vacant(v) => { v.insert(way); (true, true, k) }
                                            Entry::Occupied(mut o) => {
                                                let better = way < *o.get();
                                                if better { o.insert(way); }
                                                (false, better, k)
                                            }
                                        }
                                    };
                                    if new {
                                        new_states.fetch_add(1, SeqCst);
                                    }
                                    if better {
                                        local.push((level[i], a, s.arity as u16, k, s.reached));
                                    }
                                }
                                Err(m) => {
                                    let mut v = viol.lock().unwrap();
                                    if v.as_ref().is_none_or(|x| c < x.choices) {
                                        *v = Some(Violation { message: m, choices: c, log });
                                    }
                                    stop.store(true, SeqCst);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    next.lock().unwrap().extend(local);
                });
            }
        }), id, harness);
        let mut nx = next.into_inner().unwrap();
        nx.retain(|(parent, act, _, k, _)| *k == 0 || seen[(*k % SHARDS as u128) as usize].lock().unwrap()[k] == (depth, *parent, *act));
        nx.sort_unstable_by_key(|n| (n.0, n.1));
        for x in nx.iter().flat_map(|n| &n.4) {
            *covered.entry(x).or_default() += 1;
        }
        st.states += nx.len() as u64;
        st.depth = depth + 1;
        st.levels.push(nx.len() as u64);
        let first = arena.len() as u32;
        arena.extend(nx.iter().map(|&(parent, act, arity, ..)| Node { parent, act, arity }));
        level = (first..arena.len() as u32).collect();
        if viol.lock().unwrap().is_some() {
            break;
        }
        if oot.load(SeqCst) {
            st.capped = Some(format!(
                "stopped inside level {} after {:.0} s / {} states; the levels before it are complete",
                depth + 1, t0.elapsed().as_secs_f64(), st.states
            ));
            break;
        }
    }
    st.transitions = transitions.into_inner();
    st.replays = st.transitions;
    st.covered = covered;
    for i in [arena.len() / 2, arena.len() - 1] {
        st.samples.push(run(&path(&arena, i as u32)).1);
    }
    if let Some(v) = viol.into_inner().unwrap() {
        if run(&v.choices).0.is_ok() {
            crate::die(&format!("{harness}: a failure did not replay: {}", v.message));
        }
        st.violation = Some(v);
    }
    st.seconds = t0.elapsed().as_secs_f64();
    st
}
