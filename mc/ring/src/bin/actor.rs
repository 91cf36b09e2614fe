//! C07: actors run tasks one at a time, in order, on time, and stop for good.
//! C08: an event stream hands over everything sent before it was closed.
use std::{
    sync::{Arc, Mutex as RealMutex, atomic::{AtomicBool as RealBool, AtomicU32 as RealU32, Ordering::SeqCst}},
    time::Duration,
};

use mclib::{Check, json, pick};
use mcstd::{mc, sync::atomic::{AtomicBool, Ordering}, thread};
use ringrtc::common::actor::{Actor, Stopper};

/// What the tasks saw.  Real (unmodelled) synchronisation: one execution is one OS thread.
#[derive(Default)]
struct Seen {
    runs: RealMutex<Vec<(u32, u64)>>,
    dropped: RealU32,
    stopped: RealBool,
    alive: RealU32,
}
struct Guard(Arc<Seen>);
impl Drop for Guard {
    fn drop(&mut self) {
        self.0.dropped.fetch_add(1, SeqCst);
    }
}
/// The actor's state; `busy` is a modelled atomic, so that two tasks running at once is visible.
struct State {
    busy: AtomicBool,
    seen: Arc<Seen>,
}
impl Drop for State {
    fn drop(&mut self) {
        self.seen.alive.fetch_sub(1, SeqCst);
    }
}
fn state(seen: &Arc<Seen>) -> State {
    seen.alive.fetch_add(1, SeqCst);
    State { busy: AtomicBool::new(false), seen: seen.clone() }
}
fn task(seen: &Arc<Seen>, id: u32) -> impl FnOnce(&mut State) + Send + 'static {
    let g = Guard(seen.clone());
    move |s: &mut State| {
        assert!(!g.0.stopped.load(SeqCst), "task {id} ran after the actor had been stopped and joined");
        assert!(!s.busy.swap(true, Ordering::SeqCst), "two tasks of one actor ran at once");
        s.seen.runs.lock().unwrap().push((id, mc::now()));
        mc::point();
        s.busy.store(false, Ordering::SeqCst);
        drop(g);
    }
}
fn start(seen: &Arc<Seen>, stopper: &Stopper) -> Actor<State> {
    let s = seen.clone();
    Actor::start("a", stopper.clone(), move |_| Ok(state(&s))).expect("start")
}
fn ids(seen: &Seen) -> Vec<u32> {
    seen.runs.lock().unwrap().iter().map(|r| r.0).collect()
}
fn in_order(ids: &[u32], of: &[u32]) -> bool {
    let f: Vec<u32> = ids.iter().copied().filter(|i| of.contains(i)).collect();
    let mut at = 0;
    f.iter().all(|i| match of[at..].iter().position(|o| o == i) {
        Some(p) => { at += p + 1; true }
        None => false,
    })
}
/// After the end: nothing runs any more, no state and no task survives.
fn after_stop(seen: &Arc<Seen>, sent: u32, actors_dropped: bool) {
    seen.stopped.store(true, SeqCst);
    mc::advance(Duration::from_secs(7200));
    assert_eq!(seen.alive.load(SeqCst), 0, "an actor outlived the stop");
    if actors_dropped {
        assert_eq!(seen.dropped.load(SeqCst), sent, "tasks survived the end of the actor");
    }
}

fn fifo(stop: bool) {
    let seen = Arc::new(Seen::default());
    let stopper = Stopper::new();
    let a = start(&seen, &stopper);
    let hs: Vec<_> = (1..3u32)
        .map(|t| {
            let (a, seen) = (a.clone(), seen.clone());
            thread::spawn(move || {
                a.send(task(&seen, t * 10));
                a.send(task(&seen, t * 10 + 1));
            })
        })
        .collect();
    a.send(task(&seen, 1));
    a.send(task(&seen, 2));
    if stop {
        stopper.stop_all_and_join();
        seen.stopped.store(true, SeqCst);
        assert!(stopper.has_been_stopped());
        assert_eq!(mc::now(), 0, "stopping waited for a timer");
    } else {
        mc::quiesce();
    }
    for h in hs {
        h.join().unwrap();
    }
    mc::quiesce();
    let ran = ids(&seen);
    for of in [[1, 2], [10, 11], [20, 21]] {
        assert!(in_order(&ran, &of), "tasks sent in the order {of:?} ran as {ran:?}");
    }
    let mut u = ran.clone();
    u.sort();
    u.dedup();
    assert_eq!(u.len(), ran.len(), "a task ran twice: {ran:?}");
    if !stop {
        assert_eq!(ran.len(), 6, "tasks were lost: {ran:?}");
        stopper.stop_all_and_join();
    } else {
        mc::cover(if ran.len() == 6 { "all_ran_before_stop" } else { "stopped_with_tasks_queued" });
    }
    mc::outcome(format!("{ran:?}"));
    drop(a);
    after_stop(&seen, 6, true);
}

/// Delayed tasks: three delays, every combination, with an immediate task sent in the middle.
fn delayed() {
    const D: [u64; 3] = [0, 5, 10];
    let seen = Arc::new(Seen::default());
    let stopper = Stopper::new();
    let a = start(&seen, &stopper);
    let ds: Vec<u64> = (0..3).map(|_| D[mc::choose(3)]).collect();
    let gap = [0u64, 3, 7][mc::choose(3)];
    let mut due = vec![];
    for (i, d) in ds.iter().enumerate() {
        due.push(mc::now() / 1_000_000 + d);
        a.send_delayed(Duration::from_millis(*d), task(&seen, i as u32));
        if i == 0 {
            if gap > 0 {
                thread::sleep(Duration::from_millis(gap));
            }
            a.send(task(&seen, 100));
        }
    }
    let sent_at = gap;
    mc::advance(Duration::from_millis(100));
    let runs: Vec<(u32, u64)> = seen.runs.lock().unwrap().iter().map(|r| (r.0, r.1 / 1_000_000)).collect();
    assert_eq!(runs.len(), 4, "delays {ds:?}: ran {runs:?}");
    let when = |id: u32| runs.iter().find(|r| r.0 == id).map(|r| r.1).expect("ran");
    for (i, d) in due.iter().enumerate() {
        assert_eq!(when(i as u32), *d, "task with delay {} ms, due at {d} ms, ran at another time ({runs:?})", ds[i]);
    }
    assert_eq!(when(100), sent_at, "an immediate task waited behind a delayed one ({runs:?})");
    let order: Vec<u64> = runs.iter().filter(|r| r.0 < 100).map(|r| due[r.0 as usize]).collect();
    assert!(order.windows(2).all(|w| w[0] <= w[1]), "delayed tasks ran out of deadline order: {runs:?}");
    mc::outcome(format!("{ds:?} {gap} {runs:?}"));
    stopper.stop_all_and_join();
    drop(a);
    after_stop(&seen, 4, true);
}

/// Stop while a task is running, others are queued, one is delayed by an hour and a sender is active.
fn stop_busy() {
    let seen = Arc::new(Seen::default());
    let stopper = Stopper::new();
    let a = start(&seen, &stopper);
    a.send_delayed(Duration::from_secs(3600), task(&seen, 90));
    a.send(task(&seen, 1));
    let h = {
        let (a, seen) = (a.clone(), seen.clone());
        thread::spawn(move || {
            a.send(task(&seen, 2));
            a.send_delayed(Duration::from_millis(1), task(&seen, 91));
        })
    };
    stopper.stop_all_and_join();
    seen.stopped.store(true, SeqCst);
    assert!(mc::now() < 3600_000_000_000, "stopping waited for a delayed task");
    h.join().unwrap();
    a.send(task(&seen, 3));
    mc::outcome(format!("{:?}", ids(&seen)));
    drop(a);
    after_stop(&seen, 5, true);
}

/// A parent task starts a child under the same stopper while everything is being stopped.
fn child() {
    let seen = Arc::new(Seen::default());
    let stopper = Stopper::new();
    let a = start(&seen, &stopper);
    let s2 = seen.clone();
    let parent = a.clone();
    // somebody may go on holding the child
    let kept = Arc::new(RealMutex::new(None));
    let keep = mc::choose_bool().then(|| kept.clone());
    a.send(move |_| {
        let c = start(&s2, parent.stopper());
        c.send(task(&s2, 5));
        if let Some(k) = keep { *k.lock().unwrap() = Some(c); }
    });
    let how = mc::choose(2);
    if how == 0 {
        stopper.stop_all_and_join();
    } else {
        for h in stopper.stop_all_without_joining() {
            h.join().unwrap();
        }
    }
    mc::quiesce();
    mc::outcome(format!("{:?} alive {}", ids(&seen), seen.alive.load(SeqCst)));
    drop(a);
    after_stop(&seen, 0, false);
    drop(kept);
}

/// An actor that starts when all have been stopped is stopped too.
fn after_all() {
    let seen = Arc::new(Seen::default());
    let stopper = Stopper::new();
    let a = start(&seen, &stopper);
    stopper.stop_all_and_join();
    let b = start(&seen, &stopper);
    b.send(task(&seen, 5));
    mc::quiesce();
    after_stop(&seen, 0, false);
    drop((a, b));
}

/// An actor that starts its child while it is itself being created (as the simulated network does).
fn child_of_gen_state() {
    let seen = Arc::new(Seen::default());
    let stopper = Stopper::new();
    let s2 = seen.clone();
    let a = Actor::start("outer", stopper.clone(), move |me: Actor<State>| {
        let _c = start(&s2, me.stopper());
        Ok(state(&s2))
    })
    .unwrap();
    stopper.stop_all_and_join();
    mc::quiesce();
    drop(a);
    after_stop(&seen, 0, false);
}

/// A creation that fails counts as stopped; the other actor is not affected.
fn failed_start() {
    let seen = Arc::new(Seen::default());
    let stopper = Stopper::new();
    let bad: Actor<State> = Actor::start("bad", stopper.clone(), |_| Err(anyhow::anyhow!("no"))).unwrap();
    let a = start(&seen, &stopper);
    bad.send(task(&seen, 66));
    a.send(task(&seen, 1));
    mc::quiesce();
    assert_eq!(ids(&seen), vec![1]);
    stopper.stop_all_and_join();
    drop((a, bad));
    after_stop(&seen, 2, true);
}

/// One actor's task panics: joining reports it, and still every actor has been stopped.
fn panicking() {
    let seen = Arc::new(Seen::default());
    let stopper = Stopper::new();
    let (a, b) = (start(&seen, &stopper), start(&seen, &stopper));
    if mc::choose_bool() {
        a.send(|_| panic!("boom"));
        b.send(task(&seen, 1));
    } else {
        b.send(|_| panic!("boom"));
        a.send(task(&seen, 1));
    }
    mc::quiesce();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| stopper.stop_all_and_join()));
    assert!(r.is_err(), "a panicked actor went unnoticed");
    mc::take_thread_panics();
    drop((a, b));
    after_stop(&seen, 1, true);
}

/// An actor may stop its own group from inside a task (as a group call client does).
fn stop_from_inside() {
    let seen = Arc::new(Seen::default());
    let stopper = Stopper::new();
    let (a, b) = (start(&seen, &stopper), start(&seen, &stopper));
    a.send(task(&seen, 1));
    let st = stopper.clone();
    let done = seen.clone();
    a.send(move |_| {
        drop(st.stop_all_without_joining());
        done.runs.lock().unwrap().push((50, 0));
    });
    a.send(task(&seen, 3));
    b.send(task(&seen, 7));
    mc::quiesce();
    let ran = ids(&seen);
    assert!(ran.contains(&1) && ran.contains(&50) && !ran.contains(&3), "after stopping itself the actor ran {ran:?}");
    drop((a, b));
    after_stop(&seen, 3, true);
}

/// Many tasks, long delays, many actors: one schedule each.
fn many() {
    let seen = Arc::new(Seen::default());
    let stopper = Stopper::new();
    let n = [1u64, 2, 3, 4, 15, 16, 17, 33, 64, 65, 100, 257][mc::choose(12)];
    let unit = [1u64, 1000, 3_600_000, 86_400_000 * 20][mc::choose(4)];
    let order = mc::choose(4) as u64;
    let actors: Vec<Actor<State>> = (0..n.min(40)).map(|_| start(&seen, &stopper)).collect();
    // delays 0..n in some order, half of them sent to the first actor with immediate ones between them
    let mut due = vec![];
    let began = mc::now();
    for i in 0..n {
        let k = match order {
            0 => i,
            1 => n - 1 - i,
            2 => (i * 7 + 3) % n,
            _ => i / 3,
        };
        due.push(k * unit);
        actors[0].send_delayed(Duration::from_millis(k * unit), task(&seen, i as u32));
        actors[0].send(task(&seen, 10_000 + i as u32));
    }
    for (j, a) in actors.iter().enumerate().skip(1) {
        a.send(task(&seen, 20_000 + j as u32));
    }
    mc::advance(Duration::from_millis((n + 1) * unit + 1));
    let runs: Vec<(u32, u64)> = seen.runs.lock().unwrap().iter().map(|r| (r.0, (r.1 - began) / 1_000_000)).collect();
    assert_eq!(runs.len() as u64, 2 * n + actors.len() as u64 - 1, "of {n} delayed and {n} immediate tasks");
    for (id, at) in &runs {
        let want = if *id < 10_000 { due[*id as usize] } else { 0 };
        assert_eq!(*at, want, "task {id} of {n} ran {at} ms after the start");
    }
    let now: Vec<u32> = runs.iter().map(|r| r.0).filter(|i| (10_000..20_000).contains(i)).collect();
    assert!(now.windows(2).all(|w| w[0] < w[1]), "tasks of one sender ran out of order: {now:?}");
    for i in 0..n {
        actors[(i % actors.len() as u64) as usize].send_delayed(Duration::from_millis(unit * 50), task(&seen, 30_000 + i as u32));
    }
    stopper.stop_all_and_join();
    assert_eq!(mc::live_threads(), 1, "threads outlived the stop of {} actors", actors.len());
    drop(actors);
    after_stop(&seen, 3 * n as u32 + n.min(40) as u32 - 1, true);
}

fn c07() {
    let mut c = Check::new("C07", "model_checking");
    c.rule("Every interleaving of the real actor, its senders and the stopping thread within the deviation bound; every lock, channel, atomic, spawn and join is a scheduling point; every choice of delays. A state is one scheduling choice point visited, a trace is one complete execution of the real code.");
    c.assume("Sequentially consistent memory; std's threads, channels, locks and clock are replaced by modelled ones (mcstd).");
    let b = pick(3, 4);
    let cfg = |bound| mc::Config { bound, max_seconds: pick(60, 300), ..Default::default() };
    c.schedules("order_of_three_senders", &cfg(b), &|| fifo(false));
    c.schedules("stop_against_three_senders", &cfg(b), &|| fifo(true));
    c.schedules("delays", &cfg(pick(2, 3)), &delayed);
    c.schedules("stop_busy_actor", &cfg(b + 1), &stop_busy);
    c.schedules("child_started_while_stopping", &cfg(b + 1), &child);
    c.schedules("started_after_the_stop", &cfg(b), &after_all);
    c.schedules("child_started_by_constructor", &cfg(b + 1), &child_of_gen_state);
    c.schedules("failed_start", &cfg(b), &failed_start);
    c.schedules("panicking_task", &cfg(b), &panicking);
    c.schedules("stop_from_inside", &cfg(b), &stop_from_inside);
    c.schedules("many_tasks_and_actors", &mc::Config { bound: 0, max_steps: 2_000_000, max_seconds: pick(60, 300), ..Default::default() }, &many);
    c.finish();
}

// ---------------------------------------------------------------------------------------------

fn stream(n: u32, senders: u32, close_twice: bool) {
    use ringrtc::core::util::EventStream;
    let (tx, rx) = mcstd::sync::mpsc::channel::<u32>();
    let mut es = EventStream::from(rx);
    let before: u32 = n;
    for i in 0..before {
        tx.send(i).unwrap();
    }
    let acked = Arc::new(RealMutex::new(Vec::new()));
    let hs: Vec<_> = (1..=senders)
        .map(|t| {
            let tx = tx.clone();
            let acked = acked.clone();
            thread::spawn(move || {
                for k in 0..2 {
                    let v = t * 100 + k;
                    if tx.send(v).is_ok() {
                        acked.lock().unwrap().push(v);
                    }
                }
            })
        })
        .collect();
    let mut got = vec![];
    let first = mc::choose(n as usize + 1);
    for _ in 0..first {
        got.push(es.recv().expect("an event that was sent"));
    }
    // everything acknowledged before close() begins must come out
    let promised: Vec<u32> = acked.lock().unwrap().clone();
    es.close();
    if close_twice {
        es.close();
    }
    for h in hs {
        h.join().unwrap();
    }
    while let Some(v) = es.recv() {
        got.push(v);
    }
    assert!(es.recv().is_none() && es.recv().is_none(), "an ended stream produced an event");
    for i in 0..before {
        assert!(got.contains(&i), "event {i}, sent before the close, was lost: {got:?}");
    }
    for p in &promised {
        assert!(got.contains(p), "event {p}, sent before the close, was lost: {got:?}");
    }
    for of in [vec![0, 1, 2], vec![100, 101], vec![200, 201]] {
        assert!(in_order(&got, &of), "events sent in order {of:?} arrived as {got:?}");
    }
    let mut u = got.clone();
    u.sort();
    u.dedup();
    assert_eq!(u.len(), got.len(), "an event arrived twice: {got:?}");
    mc::outcome(format!("{first} {got:?}"));
    mc::cover(if got.len() as u32 > n { "concurrent_events_kept" } else { "only_earlier_events" });
}

fn c08() {
    let mut c = Check::new("C08", "model_checking");
    c.rule("Every interleaving, within the deviation bound, of concurrent senders with a reader that receives some events, closes and drains.");
    c.assume("Sequentially consistent memory; std's channel is replaced by a modelled one (mcstd).");
    let b = pick(5, 7);
    let cfg = mc::Config { bound: b, max_seconds: pick(60, 400), ..Default::default() };
    c.schedules("one_sender", &cfg, &|| stream(2, 1, false));
    c.schedules("two_senders", &mc::Config { bound: pick(4, 5), ..cfg.clone() }, &|| stream(1, 2, false));
    c.schedules("closed_twice", &cfg, &|| stream(2, 1, true));
    // reading after the last sender is gone ends the stream after everything was read
    c.schedules("senders_gone", &cfg, &|| {
        use ringrtc::core::util::EventStream;
        let (tx, rx) = mcstd::sync::mpsc::channel::<u32>();
        let mut es = EventStream::from(rx);
        let h = thread::spawn(move || { for i in 0..3 { tx.send(i).unwrap(); } });
        let mut got = vec![];
        while let Some(v) = es.recv() { got.push(v); }
        h.join().unwrap();
        assert_eq!(got, vec![0, 1, 2]);
        es.close();
        assert!(es.recv().is_none());
    });
    // every number of events, of which any of a few were read before the close
    c.schedules("many_events", &mc::Config { bound: 0, max_seconds: 120, ..Default::default() }, &|| {
        use ringrtc::core::util::EventStream;
        let n = mc::choose(pick(600, 2000)) as u32;
        let read = [0, 1, n / 2, n][mc::choose(4)].min(n);
        let (tx, rx) = mcstd::sync::mpsc::channel::<u32>();
        let mut es = EventStream::from(rx);
        for i in 0..n {
            tx.send(i).unwrap();
        }
        for i in 0..read {
            assert_eq!(es.recv(), Some(i));
        }
        es.close();
        assert!(tx.send(n).is_err(), "a send succeeded after the close");
        for i in read..n {
            assert_eq!(es.recv(), Some(i), "of {n} events, {read} were read before the close");
        }
        assert!(es.recv().is_none());
        mc::cover("closed_with_many_queued");
    });
    c.sample(json!({"programs": 5}));
    c.finish();
}

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C07" => c07(),
        "C08" => c08(),
        x => mclib::die(&format!("unknown property {x}")),
    }
}
