//! What every check shares: tiers, evidence, verdict lines, known findings, replay files, and the
//! explicit-state breadth-first search over real objects.
pub mod bfs;
pub mod paths;

use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::PathBuf,
    sync::Mutex,
    time::Instant,
};

use mcstd::mc;
pub use serde_json::{Value, json};

pub fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn pick<T>(quick: T, thorough_: T) -> T {
    if thorough() { thorough_ } else { quick }
}

/// One property's run: collects what the harnesses covered, then writes the evidence and the verdict.
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    start: Instant,
    states: u64,
    transitions: u64,
    traces: u64,
    evaluations: u64,
    distinct: u64,
    rule: Vec<String>,
    harnesses: BTreeMap<String, Value>,
    samples: Vec<Value>,
    assumptions: Vec<String>,
    findings: Vec<Finding>,
    exhaustive: bool,
    only: Option<(String, Vec<u16>)>,
}

#[derive(Clone)]
struct Finding {
    harness: String,
    key: String,
    message: String,
    replay: Value,
}

impl Check {
    pub fn new(id: &'static str, level: &'static str) -> Check {
        mc::install_hook();
        Check {
            id,
            level,
            start: Instant::now(),
            states: 0,
            transitions: 0,
            traces: 0,
            evaluations: 0,
            distinct: 0,
            rule: vec![],
            harnesses: BTreeMap::new(),
            samples: vec![],
            assumptions: vec![],
            findings: vec![],
            exhaustive: true,
            only: replay_request(),
        }
    }
    pub fn assume(&mut self, s: &str) -> &mut Self {
        self.assumptions.push(s.into());
        self
    }
    pub fn rule(&mut self, s: &str) -> &mut Self {
        self.rule.push(s.into());
        self
    }
    fn skip(&self, harness: &str) -> bool {
        self.only.as_ref().is_some_and(|o| o.0 != harness)
    }
    fn finding(&mut self, harness: &str, key: String, message: String, replay: Value) {
        self.findings.push(Finding { harness: harness.into(), key, message, replay });
    }

    /// Explicit-state breadth-first search over real objects.
    pub fn bfs<S: bfs::System>(&mut self, harness: &str, limits: bfs::Limits, make: impl Fn() -> S + Sync) -> bfs::Stats {
        if self.skip(harness) {
            return Default::default();
        }
        if let Some((_, choices)) = &self.only {
            let (msg, log) = bfs::replay(&make, choices);
            println!("replay of {harness}:\n  {}\n  => {:?}", log.join("\n  "), msg);
            if let Some(m) = msg {
                self.finding(harness, m.clone(), m, json!({}));
            }
            return Default::default();
        }
        bfs::set_current(self.id, harness);
        let st = bfs::search(&limits, &make);
        self.searched(harness, st)
    }

    /// Explicit-state search where every transition is one run of the real code from the start.
    pub fn paths(&mut self, harness: &str, limits: bfs::Limits, run: paths::Run) -> bfs::Stats {
        if self.skip(harness) {
            return Default::default();
        }
        if let Some((_, choices)) = &self.only {
            let (r, log) = run(choices);
            println!("replay of {harness}:\n  {}\n  => {:?}", log.join("\n  "), r);
            if let Err(m) = r {
                self.finding(harness, m.clone(), m, json!({}));
            }
            return Default::default();
        }
        let st = paths::search(&limits, self.id, harness, run);
        self.searched(harness, st)
    }

    fn searched(&mut self, harness: &str, st: bfs::Stats) -> bfs::Stats {
        self.states += st.states;
        self.transitions += st.transitions;
        self.traces += st.replays;
        if let Some(c) = &st.capped {
            self.exhaustive = false;
            eprintln!("[{}] {harness}: capped: {c}", self.id);
        }
        if st.transitions == 0 && st.violation.is_none() {
            die(&format!("{harness}: explored nothing"));
        }
        self.harnesses.insert(
            harness.into(),
            json!({"states": st.states, "transitions": st.transitions, "max_depth": st.depth, "complete": st.capped.is_none(),
                   "cap": st.capped, "states_per_level": st.levels, "reached": st.covered, "terminal_states": st.terminal}),
        );
        for s in st.samples.iter().take(2) {
            self.samples.push(json!({"harness": harness, "history": s}));
        }
        if let Some(v) = &st.violation {
            self.finding(
                harness,
                v.message.clone(),
                v.message.clone(),
                json!({"choices": v.choices, "history": v.log}),
            );
        }
        eprintln!(
            "[{}] {harness}: states {} transitions {} depth {} ({:.1} s){}",
            self.id, st.states, st.transitions, st.depth, st.seconds,
            st.violation.as_ref().map(|v| format!("  VIOLATED: {}", v.message)).unwrap_or_default()
        );
        st
    }

    /// Every schedule within the deviation bound (and every environment choice) of `body`.
    pub fn schedules(&mut self, harness: &str, cfg: &mc::Config, body: &(dyn Fn() + Sync)) -> mc::Report {
        if self.skip(harness) {
            return Default::default();
        }
        let t = Instant::now();
        if let Some((_, choices)) = &self.only {
            let r = mc::run_once(cfg, choices.clone(), body);
            println!("replay of {harness}:\n  {}\n  => {:?} {:?}", r.log.join("\n  "), r.error, r.engine_error);
            if let Some(m) = r.error {
                self.finding(harness, m.clone(), m, json!({}));
            }
            return Default::default();
        }
        // Own every source of nondeterminism: the default schedule twice, same observations.
        bfs::set_current(self.id, harness);
        let (a, b) = bfs::watched(|| (mc::run_once(cfg, vec![], body), mc::run_once(cfg, vec![], body)));
        if (&a.trace, &a.log, &a.outcome, a.steps, &a.error) != (&b.trace, &b.log, &b.outcome, b.steps, &b.error) {
            die(&format!("{harness}: the same schedule gave two different executions"));
        }
        let _ = mc::HANG.set(on_hang);
        *CURRENT.lock().unwrap() = Some((self.id, harness.to_string()));
        let r = mc::explore_iterative(cfg, body);
        if let Some(e) = &r.engine_error {
            die(&format!("{harness}: engine error: {e}"));
        }
        self.states += r.choice_points;
        self.transitions += r.steps;
        self.traces += r.executions;
        self.evaluations += r.executions;
        self.distinct += r.outcomes.len() as u64;
        if let Some(c) = &r.capped {
            self.exhaustive = false;
            eprintln!("[{}] {harness}: capped: {c}", self.id);
        }
        let mut outcomes: Vec<_> = r.outcomes.iter().collect();
        outcomes.sort_by(|a, b| b.1.cmp(a.1));
        let shown: Vec<_> = outcomes.iter().take(8).map(|(k, v)| json!([k, v])).collect();
        self.harnesses.insert(
            harness.into(),
            json!({"executions": r.executions, "scheduling_points": r.steps, "choice_points": r.choice_points,
                   "longest_choice_list": r.max_trace, "deviation_bound": r.bound, "early_timers": cfg.timers,
                   "distinct_outcomes": r.outcomes.len(), "outcomes": shown, "reached": r.covered,
                   "unfinished_threads": r.leaked, "complete_within_bound": r.capped.is_none(), "cap": r.capped}),
        );
        if let Some(s) = r.sample.last() {
            self.samples.push(json!({"harness": harness, "schedule": s}));
        }
        if let Some(v) = &r.violation {
            // a failure must replay
            let again = mc::run_once(&mc::Config { bound: usize::MAX >> 1, ..cfg.clone() }, v.choices.clone(), body);
            let again1 = if again.error.is_none() {
                // bound 0 executions record no scheduling choices
                mc::run_once(&mc::Config { bound: r.bound, ..cfg.clone() }, v.choices.clone(), body)
            } else {
                again
            };
            if again1.error.is_none() {
                die(&format!("{harness}: a failure did not replay: {}", v.message));
            }
            self.finding(
                harness,
                v.message.clone(),
                v.message.clone(),
                json!({"choices": v.choices, "deviations": v.deviations, "history": v.log}),
            );
        }
        eprintln!(
            "[{}] {harness}: executions {} points {} bound {} outcomes {} reached {:?} ({:.1} s){}",
            self.id, r.executions, r.steps, r.bound, r.outcomes.len(), r.covered, t.elapsed().as_secs_f64(),
            r.violation.as_ref().map(|v| format!("  VIOLATED: {}", v.message)).unwrap_or_default()
        );
        r
    }

    /// Exhaustive enumeration of a finite space of inputs or call sequences.  `body` is called with
    /// every index below `n`, on all cores; it returns whether the case was non-trivial, or an error.
    pub fn enumerate(&mut self, harness: &str, n: u64, body: impl Fn(u64) -> Result<bool, String> + Sync) -> u64 {
        if self.skip(harness) {
            return 0;
        }
        if let Some((_, c)) = &self.only {
            let i = c.iter().fold(0u64, |a, d| (a << 16) | *d as u64);
            let r = guarded(|| body(i));
            println!("replay of {harness}: case {i} => {r:?}");
            if let Err(m) = r {
                self.finding(harness, m.clone(), m, json!({}));
            }
            return 0;
        }
        let t = Instant::now();
        let next = std::sync::atomic::AtomicU64::new(0);
        let nontrivial = std::sync::atomic::AtomicU64::new(0);
        let done = std::sync::atomic::AtomicU64::new(0);
        let bad: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let chunk = (n / 256).clamp(1, 4096);
        bfs::watch(|slots| {
            std::thread::scope(|s| {
                for w in 0..bfs::workers() {
                    let (next, nontrivial, done, bad, body, slots) = (&next, &nontrivial, &done, &bad, &body, &slots);
                    s.spawn(move || {
                        loop {
                            let a = next.fetch_add(chunk, std::sync::atomic::Ordering::SeqCst);
                            if a >= n || bad.lock().unwrap().is_some() {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                slots.begin(w, vec![(i >> 48) as u16, (i >> 32) as u16, (i >> 16) as u16, i as u16]);
                                match guarded(|| body(i)) {
                                    Ok(nt) => {
                                        done.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                        if nt {
                                            nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                        }
                                    }
                                    Err(m) => {
                                        let mut b = bad.lock().unwrap();
                                        if b.as_ref().is_none_or(|x| i < x.0) {
                                            *b = Some((i, m));
                                        }
                                        break;
                                    }
                                }
                                slots.end(w);
                            }
                        }
                    });
                }
            });
        }, self.id, harness);
        let (done, nt) = (done.into_inner(), nontrivial.into_inner());
        self.evaluations += done;
        self.distinct += nt;
        self.traces += done;
        self.harnesses.insert(harness.into(), json!({"cases": done, "of": n, "non_trivial": nt}));
        self.samples.push(json!({"harness": harness, "case": n / 2}));
        let b = bad.into_inner().unwrap();
        eprintln!(
            "[{}] {harness}: cases {done} non-trivial {nt} ({:.1} s){}",
            self.id, t.elapsed().as_secs_f64(),
            b.as_ref().map(|v| format!("  VIOLATED: {}", v.1)).unwrap_or_default()
        );
        if let Some((i, m)) = b {
            let c = vec![(i >> 48) as u16, (i >> 32) as u16, (i >> 16) as u16, i as u16];
            self.finding(harness, m.clone(), m, json!({"choices": c, "case": i}));
        } else if nt == 0 {
            die(&format!("{harness}: every case was trivial"));
        }
        nt
    }

    /// Adds a sample, written out, to the evidence.
    pub fn sample(&mut self, v: Value) {
        self.samples.push(v);
    }
    pub fn note(&mut self, harness: &str, v: Value) {
        self.harnesses.insert(harness.into(), v);
    }

    pub fn finish(mut self) -> ! {
        let root = verif_root();
        if self.only.is_some() {
            for f in &self.findings {
                println!("VIOLATION property={} replay=(this one): {}", self.id, f.message);
            }
            std::process::exit(if self.findings.is_empty() { 0 } else { 1 });
        }
        let known = known(self.id);
        let mut printed = BTreeSet::new();
        let mut open = vec![];
        for f in std::mem::take(&mut self.findings) {
            match known.iter().find(|(h, pat)| *h == f.harness && f.key.contains(pat.as_str())) {
                Some((h, pat)) => {
                    if printed.insert((h.clone(), pat.clone())) {
                        println!("KNOWN-FINDING: property={} {h}: {pat}", self.id);
                    }
                }
                None => open.push(f),
            }
        }
        let mut samples = self.samples.clone();
        samples.truncate(12);
        let mut coverage = json!({
            "harnesses": self.harnesses,
            "samples": samples,
            "exhaustive": self.exhaustive && open.is_empty(),
        });
        let c = coverage.as_object_mut().unwrap();
        if self.level == "model_checking" {
            c.insert("states".into(), json!(self.states));
            c.insert("transitions".into(), json!(self.transitions));
            c.insert("traces_validated_against_impl".into(), json!(self.traces));
        } else {
            c.insert("evaluations".into(), json!(self.evaluations));
            c.insert("distinct_nontrivial".into(), json!(self.distinct));
        }
        c.insert("rule".into(), json!(self.rule.join(" ")));
        let ev = json!({
            "property": self.id,
            "tier": if thorough() { "thorough" } else { "quick" },
            "seed": seed(),
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": open.len(),
        });
        let dir = root.join("evidence");
        fs::create_dir_all(&dir).unwrap();
        fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        for f in &open {
            let p = write_replay(self.id, &f.harness, &f.message, &f.replay);
            println!("{}: {}", f.harness, f.message);
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        std::process::exit(if open.is_empty() { 0 } else { 1 });
    }
}

/// A panic of the code under test while a harness prepares its inputs is a violation as well.
impl Drop for Check {
    fn drop(&mut self) {
        let text = mc::last_panic();
        if std::thread::panicking() && text.contains("/ws/") {
            hang_exit(self.id, "preparation", &text.replace('\n', " "), vec![]);
        }
    }
}

static CURRENT: Mutex<Option<(&'static str, String)>> = Mutex::new(None);

fn on_hang(r: &mc::Report) {
    let (id, h) = CURRENT.lock().unwrap().clone().unwrap();
    let v = r.violation.clone().unwrap();
    hang_exit(id, &h, &v.message, v.choices);
}
pub(crate) fn hang_exit(id: &str, harness: &str, message: &str, choices: Vec<u16>) -> ! {
    let ev = json!({"property": id, "tier": if thorough() { "thorough" } else { "quick" }, "seed": seed(), "level": "other",
        "coverage": {"explanation": format!("{harness}: {message}")}, "wall_s": 0.0, "violations": 1});
    let dir = verif_root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let _ = fs::write(dir.join(format!("{id}.json")), ev.to_string());
    let p = write_replay(id, harness, message, &json!({"choices": choices}));
    println!("{harness}: {message}");
    println!("VIOLATION property={} replay={}", id, p.display());
    std::process::exit(1);
}

fn write_replay(id: &str, harness: &str, message: &str, extra: &Value) -> PathBuf {
    let dir = verif_root().join("evidence").join("replays");
    fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("{id}-{}.json", harness.replace(|c: char| !c.is_alphanumeric(), "_")));
    let mut v = json!({"property": id, "harness": harness, "message": message, "tier": if thorough() { "thorough" } else { "quick" },
        "how": format!("cd /verif && VERIF_REPLAY={} bash tools/check.sh {id}", p.display())});
    for (k, x) in extra.as_object().unwrap() {
        v[k] = x.clone();
    }
    fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    p
}
fn replay_request() -> Option<(String, Vec<u16>)> {
    let p = std::env::var("VERIF_REPLAY").ok()?;
    let v: Value = serde_json::from_str(&fs::read_to_string(p).expect("replay file")).expect("replay json");
    let c = v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u16).collect()).unwrap_or_default();
    Some((v["harness"].as_str().unwrap().into(), c))
}

/// known_findings.txt: lines `known: property=<id> harness=<name> message contains: <text>`
fn known(id: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(verif_root().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (pid, rest) = l.split_once(" harness=")?;
            let (h, pat) = rest.split_once(" message contains: ")?;
            (pid == id).then(|| (h.to_string(), pat.to_string()))
        })
        .collect()
}

/// An error of the check itself: neither 0 nor 1.
pub fn die(msg: &str) -> ! {
    eprintln!("CHECK ERROR: {msg}");
    std::process::exit(3);
}

/// Runs f, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", mc::panic_text(&*p))),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
