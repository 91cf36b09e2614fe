//! C42: what is played and recorded, through which device, when.
use std::time::Duration;

use mclib::{Check, ensure, json, pick};
use mcstd::{mc, thread};
use ringrtc::webrtc::peer_connection_factory::{AudioConfig, PeerConnectionFactory};

use crate::{
    Ears, Phone, lists, misused, released, reset, rtc,
    rtc::Answer,
    sound::{self, Dev, IN, OUT, WINDOW},
    told,
};

const VOICE: u32 = 2;

fn two(dir: usize) -> Vec<Dev> {
    let kind = if dir == IN { 1 } else { 2 };
    vec![Dev::new(16, "a", "Alpha", kind, VOICE), Dev::new(17, "b", "Beta", kind, 0)]
}
pub fn phone() -> Phone {
    Phone::new(two(IN), two(OUT)).expect("a phone")
}
fn must(r: Result<(), String>) {
    if let Err(e) = r {
        panic!("{e}");
    }
}

/// Every sequence of requests of the sound card, and answers of WebRTC.
fn playing(sizes: &[usize], steps: usize, answers: &[Answer], deep: usize) {
    let p = phone();
    rtc::with(|s| {
        // where WebRTC deviates, and how
        for _ in 0..deep {
            if answers.len() > 1 {
                let a = answers[mc::choose(answers.len())];
                s.answers.push(a);
            }
        }
    });
    assert_eq!((p.init(OUT), p.start(OUT)), (0, 0));
    let mut played: Vec<i16> = vec![];
    let mut plan = vec![];
    for _ in 0..steps {
        let n = sizes[mc::choose(sizes.len())];
        plan.push(n);
        let Some(i) = sound::running(OUT) else { break };
        let before = rtc::with(|s| s.asked);
        let held = rtc::with(|s| s.given.len()) - played.len();
        let (r, frames) = sound::pump(i, n, None).expect("it runs");
        must(misused());
        let (given, asked, answers) = rtc::with(|s| (s.given.clone(), s.asked, s.answers.clone()));
        let used: Vec<Answer> = (before..asked).map(|k| answers.get(k).copied().unwrap_or(Answer::Full)).collect();
        let text = || format!("asked for {plan:?} frames, WebRTC answered {answers:?}");
        if used.iter().any(|a| matches!(a, Answer::Fail(e) if *e < 0)) {
            assert!(r < 0, "{}: a failure of WebRTC gave {r} frames", text());
            mc::cover("failed");
            break;
        }
        // what it held, then as many answers as it takes, until one is empty
        let mut have = held;
        let mut want = vec![];
        while have < n {
            let a = answers.get(before + want.len()).copied().unwrap_or(Answer::Full);
            want.push(a);
            match a {
                Answer::Full => have += WINDOW,
                Answer::Some(k) if k > 0 => have += k,
                _ => break,
            }
        }
        assert_eq!(used, want, "{}: WebRTC was asked {} times", text(), used.len());
        let expect = n.min(have);
        assert_eq!(r as usize, expect, "{}: {r} frames were played where {expect} were there", text());
        for f in &frames {
            assert!(f[0] == f[1], "{}: left and right differ", text());
            played.push(f[0]);
        }
        assert!(given.starts_with(&played), "{}: what was played is not what WebRTC gave: {} of {} samples, first difference at {:?}", text(), played.len(), given.len(),
            played.iter().zip(&given).position(|(a, b)| a != b));
        if given.len() > played.len() {
            mc::cover("carried_over");
        }
        if expect < n {
            mc::cover("drained");
        }
    }
    p.stop(OUT);
    must(p.close());
}

/// Every sequence of what the microphone delivers.
fn recording(sizes: &[usize], steps: usize) {
    let p = phone();
    let full = [None, Some(0), Some(1), Some(2)][mc::choose(4)];
    rtc::with(|s| s.full = full);
    // how long it is only warm
    let warm = mc::choose(3);
    let mut p = p;
    if warm > 0 {
        p.app.set_audio_warmup(true).expect("warm-up");
        mc::quiesce();
    }
    if warm == 0 {
        assert_eq!((p.init(IN), p.start(IN)), (0, 0));
    }
    let mut said: Vec<i16> = vec![];
    let mut next = 0i16;
    let mut plan = vec![];
    for k in 0..steps {
        if k == warm && warm > 0 {
            assert_eq!((p.init(IN), p.start(IN)), (0, 0));
        }
        let n = sizes[mc::choose(sizes.len())];
        plan.push(n);
        let Some(i) = sound::running(IN) else {
            assert!(said.len() / WINDOW > full.unwrap_or(9999), "recording {plan:?} stopped");
            break;
        };
        let x: Vec<i16> = (0..n).map(|_| { next = next.wrapping_add(1); next }).collect();
        if k >= warm {
            said.extend(&x);
        }
        let (r, _) = sound::pump(i, n, Some(&x)).expect("it runs");
        must(misused());
        let (taken, windows) = rtc::with(|s| (s.taken.clone(), s.windows));
        let text = || format!("recorded {plan:?} (the first {warm} to warm up), WebRTC takes {full:?} windows");
        let want = (said.len() / WINDOW).min(full.unwrap_or(9999));
        assert_eq!(windows, want, "{}: WebRTC got {windows} windows", text());
        assert!(said.starts_with(&taken), "{}: WebRTC got other samples than were recorded", text());
        let refused = said.len() / WINDOW > want;
        assert_eq!(r, if refused { -1 } else { n as i64 }, "{}: the sound card was told {r}", text());
        mc::cover(if refused { "refused" } else if k < warm { "warm" } else if said.len() % WINDOW > 0 { "carried_over" } else { "whole" });
    }
    p.stop(IN);
    must(p.close());
}

/// What may be done to the audio of a call.
#[derive(Clone, Copy, Debug)]
enum Act {
    Choose(usize, usize),
    ChooseId(usize, usize),
    Voice(bool),
    Warm(bool),
    List(usize, usize),
    Init(usize),
    Start(usize),
    Stop(usize),
    Failing(usize, bool),
    FailingStart(usize, bool),
}
fn list(dir: usize, k: usize) -> Vec<Dev> {
    let kind = if dir == IN { 1 } else { 2 };
    match k {
        0 => vec![],
        1 => two(dir),
        _ => vec![Dev::new(17, "b", "Beta", kind, 0), Dev::new(18, "c", "Gamma", kind, VOICE)],
    }
}
/// What should be, after what was done.
struct Calls {
    phone: Phone,
    lists: [usize; 2],
    chosen: [Option<usize>; 2],
    /// the device that is open
    open: [Option<usize>; 2],
    init: [bool; 2],
    start: [bool; 2],
    warm: bool,
    voice: bool,
    /// a device could not be opened or started: nothing is promised until WebRTC stops and starts again
    broken: [bool; 2],
    fail: [bool; 2],
    fail_start: [bool; 2],
    index_chosen: [bool; 2],
    failures: bool,
    /// which directions are used
    dirs: &'static [usize],
    /// what was done before and is over
    past: [bool; 3],
    next: i16,
    reached: Vec<&'static str>,
}
impl Calls {
    fn new(failures: bool, dirs: &'static [usize]) -> Result<Calls, String> {
        Ok(Calls {
            phone: Phone::new(list(IN, 1), list(OUT, 1))?,
            lists: [1, 1],
            chosen: [None; 2],
            open: [None; 2],
            init: [false; 2],
            start: [false; 2],
            warm: false,
            voice: false,
            broken: [false; 2],
            fail: [false; 2],
            fail_start: [false; 2],
            index_chosen: [false; 2],
            failures,
            dirs,
            past: [false; 3],
            next: 0,
            reached: vec![],
        })
    }
    fn devices(&self, dir: usize) -> Vec<Option<(Dev, ringrtc::webrtc::peer_connection_factory::AudioDevice)>> {
        lists::offered(dir, &list(dir, self.lists[dir]))
    }
    fn acts(&self) -> Vec<Act> {
        let mut v = vec![];
        for &d in self.dirs {
            v.extend((0..4).map(|i| Act::Choose(d, i)));
            v.extend((0..3).map(|i| Act::ChooseId(d, i)));
            v.extend((0..3).filter(|k| *k != self.lists[d]).map(|k| Act::List(d, k)));
            // WebRTC starts what it has initialized, once
            if !self.start[d] {
                v.push(Act::Init(d));
                if self.init[d] {
                    v.push(Act::Start(d));
                }
            }
            v.push(Act::Stop(d));
            if self.failures {
                v.push(Act::Failing(d, !self.fail[d]));
                v.push(Act::FailingStart(d, !self.fail_start[d]));
            }
        }
        if self.dirs.contains(&IN) {
            v.push(Act::Voice(!self.voice));
        }
        // apps warm up before a call has audio, and end that when the call is over
        if self.dirs.contains(&IN) && !self.start[IN] {
            v.extend([Act::Warm(true), Act::Warm(false)]);
        }
        v
    }
    /// Opens what was chosen, or the default.
    fn opened(&mut self, dir: usize) {
        let d = self.chosen[dir].or(self.devices(dir).first().cloned().flatten().map(|d| d.0.devid));
        // (once opened, the default stays the choice while it is there)
        self.chosen[dir] = d;
        match d {
            Some(d) if !self.fail[dir] => self.open[dir] = Some(d),
            _ => {
                self.open[dir] = None;
                self.broken[dir] = true;
            }
        }
    }
    fn started(&mut self, dir: usize) {
        if self.fail_start[dir] {
            self.broken[dir] = true;
        }
    }
    fn chose(&mut self, dir: usize, devid: usize) {
        self.chosen[dir] = Some(devid);
        if self.open[dir].is_some() {
            self.opened(dir);
            if self.start[dir] || dir == IN && self.warm {
                self.started(dir);
            }
        }
    }
    fn apply(&mut self, a: Act) -> Result<(), String> {
        match a {
            Act::Choose(d, i) => {
                let l = self.devices(d);
                let r = self.phone.choose(d, i);
                ensure!(r.is_ok() == (l.is_empty() || i < l.len()), "choosing device {i} of {} said {r:?}", l.len());
                self.index_chosen[d] |= r.is_ok();
                if let Some(Some(x)) = l.get(i) {
                    self.chose(d, x.0.devid);
                }
            }
            Act::ChooseId(d, i) => {
                let id = ["a", "b", "c"][i];
                let l = self.devices(d);
                let x = l.iter().flatten().find(|x| x.1.unique_id == id);
                let r = self.phone.choose_id(d, id);
                ensure!(r.is_ok() == (l.is_empty() || x.is_some()), "choosing device {id} said {r:?}");
                if let Some(x) = x {
                    self.chose(d, x.0.devid);
                }
            }
            Act::Voice(on) => {
                self.phone.app.set_input_voice_processing_enabled(on).map_err(|e| e.to_string())?;
                mc::quiesce();
                self.voice = on;
                if let Some(d) = self.chosen[IN] {
                    self.chose(IN, d);
                }
            }
            Act::Warm(true) => {
                self.phone.app.set_audio_warmup(true).map_err(|e| e.to_string())?;
                mc::quiesce();
                self.init[IN] = true;
                if !self.warm && !self.broken[IN] {
                    self.opened(IN);
                    self.warm = true;
                    self.started(IN);
                }
            }
            Act::Warm(false) => {
                self.phone.app.set_audio_warmup(false).map_err(|e| e.to_string())?;
                mc::quiesce();
                self.stopped(IN);
            }
            Act::List(d, k) => {
                self.lists[d] = k;
                sound::set_list(d, list(d, k));
                sound::announce(d);
                mc::quiesce();
                let t = told();
                let names: Vec<_> = self.devices(d).into_iter().map(|x| x.map(|x| x.1)).collect();
                ensure!(t == [(d, names.clone())], "the app was told {t:?} of {names:?}");
                if self.chosen[d].is_some_and(|c| !list(d, k).iter().any(|x| x.devid == c)) {
                    self.chosen[d] = None;
                }
            }
            Act::Init(d) => {
                ensure!(self.phone.init(d) == 0, "initializing failed");
                self.init[d] = true;
                if !(d == IN && self.warm) && !self.broken[d] {
                    self.opened(d);
                }
            }
            Act::Start(d) => {
                ensure!(self.phone.start(d) == 0, "starting failed");
                self.start[d] = true;
                if d == IN && self.warm {
                    self.warm = false;
                    self.reached.push("warm_to_recording");
                } else if !self.broken[d] {
                    self.started(d);
                }
            }
            Act::Stop(d) => {
                ensure!(self.phone.stop(d) == 0, "stopping failed");
                self.stopped(d);
            }
            Act::Failing(d, on) => {
                sound::with(|w| w.fail.open[d] = on);
                self.fail[d] = on;
            }
            Act::FailingStart(d, on) => {
                sound::with(|w| w.fail.start[d] = on);
                self.fail_start[d] = on;
            }
        }
        self.check()
    }
    fn stopped(&mut self, d: usize) {
        self.past[d] |= self.start[d];
        self.past[2] |= d == IN && self.warm;
        self.open[d] = None;
        self.init[d] = false;
        self.start[d] = false;
        self.broken[d] = false;
        if d == IN {
            self.warm = false;
        }
    }
    fn check(&mut self) -> Result<(), String> {
        misused()?;
        let r = self.phone.rtc;
        ensure!(r.initialized(), "the module is not initialized");
        ensure!([r.recording_is_initialized(), r.playout_is_initialized()] == self.init, "WebRTC is told that {:?} are initialized, not {:?}", [r.recording_is_initialized(), r.playout_is_initialized()], self.init);
        ensure!([r.recording(), r.playing()] == self.start, "WebRTC is told that {:?} were started, not {:?}", [r.recording(), r.playing()], self.start);
        for d in [IN, OUT] {
            let mut b = false;
            let e = if d == IN { r.recording_is_available(&mut b) } else { r.playout_is_available(&mut b) };
            ensure!(e == 0 && (b || !self.index_chosen[d]), "a device that was chosen is not available");
        }
        let names = [IN, OUT].map(|d| self.phone.listed(d));
        for d in [IN, OUT] {
            let want = self.devices(d).into_iter().map(|x| x.unwrap().1).collect::<Vec<_>>();
            ensure!(names[d] == Ok(want.clone()), "{:?} are listed, not {want:?}", names[d]);
            let open = sound::open(d);
            ensure!(open.len() <= 1, "{} streams are open in one direction", open.len());
            if !self.broken[d] {
                let got = open.first().map(|s| (s.1.device, s.1.running));
                let want = self.open[d].map(|x| (x, self.start[d] || d == IN && self.warm));
                ensure!(got == want, "{}: open (device, running) {got:?}, not {want:?}", ["recording", "playing"][d]);
            }
            // sound passes exactly when it should
            let run = sound::running(d);
            let before = rtc::with(|s| (s.asked, s.windows));
            if let Some(i) = run {
                self.next = self.next.wrapping_add(1);
                let x = [self.next; WINDOW];
                let got = sound::pump(i, WINDOW, (d == IN).then_some(&x[..]));
                ensure!(got.as_ref().is_some_and(|g| g.0 == WINDOW as i64), "the sound card was told {:?}", got.map(|g| g.0));
                if d == IN && rtc::with(|s| s.windows) > before.1 {
                    ensure!(rtc::with(|s| s.taken.ends_with(&x)), "WebRTC got another recording");
                }
            }
            let after = rtc::with(|s| (s.asked, s.windows));
            let moved = if d == IN { after.1 - before.1 } else { after.0 - before.0 };
            if self.broken[d] {
                ensure!(moved == 0 || self.start[d], "{} without being started", ["recorded", "played"][d]);
                self.reached.push("broken");
            } else {
                let want = usize::from(self.start[d]);
                ensure!(moved == want, "{moved} windows were {} where {want} should be", ["recorded", "played"][d]);
            }
            if self.start[d] && !self.broken[d] {
                self.reached.push(["recording", "playing"][d]);
                if self.open[d] == Some(18) || self.open[d] == Some(17) {
                    self.reached.push("other_device");
                }
                if self.chosen[d].is_none() {
                    self.reached.push("device_gone_while_open");
                }
            }
        }
        if self.warm && !self.broken[IN] {
            self.reached.push("warm");
        }
        let mut ms = 0;
        let r = r.playout_delay(&mut ms);
        if !self.broken[OUT] {
            let want = if self.open[OUT].is_some() { (0, 20) } else { (-1, 0) };
            ensure!((r, ms) == want, "the delay is {:?}, not {want:?}", (r, ms));
        }
        misused()
    }
    fn key(&self) -> String {
        format!("{:?}", (self.lists, self.chosen, self.open, self.init, self.start, self.warm, self.voice, self.broken, self.fail, self.fail_start, self.index_chosen, self.past))
    }
}
fn operations(c: &mut Check, name: &str, depth: usize, merge: bool, failures: bool, dirs: &'static [usize]) {
    let mut l = mclib::bfs::Limits::depth(depth);
    l.max_seconds = pick(150., 1200.);
    let cfg = mc::Config { bound: 0, max_steps: 400_000, ..Default::default() };
    let st = c.paths(name, l, &|choices| {
        crate::run(
            || {
                let mut m = Calls::new(failures, dirs)?;
                let r: Result<mclib::paths::Step, String> = (|| {
                    for &c in choices {
                        let a = m.acts()[c as usize];
                        mc::log(format!("{a:?}"));
                        m.apply(a)?;
                    }
                    m.reached.sort();
                    m.reached.dedup();
                    Ok(mclib::paths::Step { key: if merge { m.key() } else { String::new() }, arity: m.acts().len(), reached: m.reached.clone() })
                })();
                let closed = m.phone.close();
                let r = r?;
                closed?;
                Ok(r)
            },
            &cfg,
        )
    });
    eprintln!("   {:?} {:?}", st.levels, st.covered);
}

/// The microphone delivers while something happens.
fn meanwhile(what: usize) {
    mc::set_deviations(false);
    let mut p = phone();
    let warm = what < 4;
    if warm {
        p.app.set_audio_warmup(true).unwrap();
        mc::quiesce();
    } else {
        p.init(IN);
        p.start(IN);
    }
    let from = sound::running(IN).expect("it runs");
    mc::set_deviations(true);
    // the sound card delivers to whatever runs
    let card = thread::spawn(move || {
        let mut n = 0i16;
        for _ in 0..4 {
            if let Some(i) = sound::running(IN) {
                n += 1;
                sound::pump(i, WINDOW, Some(&[n; WINDOW]));
            }
            mc::point();
        }
    });
    match what % 4 {
        0 => drop(p.rtc.stop_recording()),
        1 => drop(p.app.set_audio_recording_device(2)),
        2 => drop(p.app.set_input_voice_processing_enabled(true)),
        _ => drop(p.app.set_audio_warmup(false)),
    }
    mc::quiesce();
    card.join().unwrap();
    must(misused());
    let windows = rtc::with(|s| s.windows);
    if warm {
        assert_eq!(windows, 0, "a microphone that only warms up was heard");
    }
    let open = sound::open(IN);
    match what % 4 {
        0 | 3 => {
            assert!(open.is_empty(), "recording goes on after it was stopped");
            mc::cover(if windows > 0 { "heard_before" } else { "nothing_heard" });
        }
        _ => {
            assert!(open.len() == 1 && open[0].1.running, "recording stopped when the device changed: {} open", open.len());
            assert!(what % 4 == 2 || open[0].1.device == 17);
            if open[0].0 != from {
                mc::cover("other_stream");
            }
            // and it goes on as it was
            sound::pump(open[0].0, WINDOW, Some(&[99; WINDOW]));
            assert_eq!(rtc::with(|s| s.taken.ends_with(&[99; WINDOW])), !warm, "the change of devices changed whether the microphone is heard");
        }
    }
    mc::outcome(format!("{windows}"));
    must(p.close());
}

/// WebRTC asks for the delay, again and again, while the sound card is slow.
fn delays() {
    let p = phone();
    p.init(OUT);
    p.start(OUT);
    let i = sound::running(OUT).expect("it runs");
    let slow = [0u64, 20, 60, 120][mc::choose(4)];
    rtc::with(|s| s.slow = Duration::from_millis(slow));
    let mut p = p;
    let card = thread::spawn(move || {
        sound::pump(i, WINDOW, None);
    });
    mc::quiesce();
    // the worker waits for the callback that runs
    p.app.set_audio_playout_device(2).unwrap();
    let mut late = 0;
    for k in 0..4u32 {
        // the latency is another one each time
        sound::with(|w| w.latency = 480 * (k + 1));
        let t = mc::now();
        let mut ms = 0xffffu16;
        let r = p.rtc.playout_delay(&mut ms);
        assert!(mc::now() - t <= 50_000_000, "WebRTC waited {} ns", mc::now() - t);
        if r == 0 {
            assert_eq!(ms as u32, 10 * (k + 1), "WebRTC is told an old delay after {late} late ones");
            mc::cover("told");
        } else {
            assert!(mc::now() - t == 50_000_000, "no delay although the worker is idle");
            late += 1;
            mc::cover("late");
        }
        mc::sleep(Duration::from_millis([0, 5, 40][mc::choose(3)]));
    }
    rtc::with(|s| s.slow = Duration::ZERO);
    mc::advance(Duration::from_secs(1));
    card.join().unwrap();
    let mut ms = 0;
    sound::with(|w| w.latency = 4800);
    assert_eq!((p.rtc.playout_delay(&mut ms), ms), (0, 100), "the delay");
    must(p.close());
    mc::outcome(format!("{slow} {late}"));
}

/// Everything that can fail while it is set up, and every order in which it is given up.
fn release() {
    reset();
    sound::set_list(IN, two(IN));
    sound::set_list(OUT, two(OUT));
    let fail = mc::choose(8);
    sound::with(|w| match fail {
        1 => w.fail.context = true,
        2 => w.fail.register[0] = true,
        3 => w.fail.register[1] = true,
        4 => w.fail.enumerate = true,
        5 => w.fail.latency = true,
        _ => {}
    });
    rtc::with(|s| s.refuse = fail == 6);
    let flags = mc::choose(16);
    let f = |i: usize| flags >> i & 1 == 1;
    let config = AudioConfig { high_pass_filter_enabled: f(0), aec_enabled: f(1), ns_enabled: f(2), agc_enabled: f(3) };
    let trials = if fail == 7 { "a\0b" } else { "RingRTC-Trial/Enabled/" };
    let observer = mc::choose_bool();
    let app = PeerConnectionFactory::new(&config, false, trials, if observer { Some(Box::new(Ears)) } else { None });
    match app {
        Err(_) => {
            assert!(fail >= 6, "no factory");
            mc::cover("refused");
        }
        Ok(mut app) => {
            assert!(fail < 6, "a factory that WebRTC refused");
            assert_eq!(rtc::with(|s| s.flags), [f(0), f(1), f(2), f(3)], "high-pass filter, echo, noise, gain");
            let made = rtc::with(|s| s.made);
            if (1..=3).contains(&fail) {
                assert!(made.is_none() && app.audio_backend().is_none(), "a module without a library");
                assert!(app.get_audio_playout_devices().is_err() && app.set_audio_recording_device(0).is_err() && app.set_audio_warmup(true).is_err());
                mc::cover("no_audio");
            } else {
                assert_eq!(app.audio_backend().as_deref(), Some("pretend"));
                mc::quiesce();
                let n = app.get_audio_playout_devices().map(|d| d.len());
                assert_eq!(n.ok(), Some(if fail == 4 { 0 } else { 3 }));
                if mc::choose_bool() {
                    let r = made.unwrap();
                    assert_eq!((r.init_playout(), r.start_playout(), r.init_recording(), r.start_recording()), (0, 0, 0, 0));
                }
                if mc::choose_bool() {
                    mc::quiesce();
                }
                mc::cover("working");
            }
            // the app's handles, and WebRTC's own
            let second = mc::choose_bool().then(|| app.clone());
            let own = mc::choose_bool().then(|| app.rffi().clone());
            match mc::choose(3) {
                0 => {
                    drop(app);
                    drop(second);
                    drop(own);
                }
                1 => {
                    drop(own);
                    drop(second);
                    drop(app);
                }
                _ => {
                    drop(second);
                    drop(app);
                    drop(own);
                }
            }
        }
    }
    must(released());
}

/// What does not depend on devices.
fn constants() {
    let p = phone();
    let r = p.rtc;
    let mut t = [true; 6];
    let [a, b, c, d, e, f] = &mut t;
    let got = [
        r.speaker_volume_is_available(a), r.microphone_volume_is_available(b), r.speaker_mute_is_available(c), r.microphone_mute_is_available(d), r.stereo_playout_is_available(e),
        r.stereo_recording_is_available(f),
    ];
    assert_eq!((got, t), ([0; 6], [false; 6]), "volume, mute and stereo are not available");
    let (mut v, mut b, mut l) = (7u32, true, 0i32);
    let fails = [
        r.set_speaker_volume(1), r.speaker_volume(&mut v), r.max_speaker_volume(&mut v), r.min_speaker_volume(&mut v), r.set_microphone_volume(1), r.microphone_volume(&mut v),
        r.max_microphone_volume(&mut v), r.min_microphone_volume(&mut v), r.set_speaker_mute(true), r.speaker_mute(&mut b), r.set_microphone_mute(true), r.microphone_mute(&mut b),
        r.set_stereo_playout(true), r.stereo_playout(&mut b), r.set_stereo_recording(true), r.stereo_recording(&mut b), r.active_audio_layer(&mut l),
    ];
    assert_eq!(fails, [-1; 17], "what is not available succeeds");
    assert_eq!((r.init(), r.terminate(), r.init_speaker(), r.init_microphone()), (0, 0, 0, 0));
    assert!(r.initialized() && r.speaker_is_initialized() && r.microphone_is_initialized());
    // nowhere to write to
    let null = std::ptr::null_mut::<bool>();
    assert_eq!([r.playout_is_available(null), r.recording_is_available(null), r.stereo_playout_is_available(null), r.speaker_mute_is_available(null)], [-1; 4]);
    let nowhere = std::ptr::null_mut::<u8>();
    assert_eq!([r.playout_device_name(0, nowhere, nowhere), r.recording_device_name(0, nowhere, nowhere)], [-1; 2]);
    assert_eq!(r.playout_delay(std::ptr::null_mut()), -1);
    let none = rtc::Rtc { adm: std::ptr::null(), ..r };
    assert_eq!([none.init_playout(), none.start_recording(), none.playout_devices() as i32, i32::from(none.playing())], [-1, -1, -1, 0], "no module");
    mc::cover("answers");
    must(p.close());
}

pub fn c42() {
    let mut c = Check::new("C42", "model_checking");
    c.rule("Every sequence of callback sizes of the sound card and of answers of WebRTC, of the stated ones; every sequence up to a depth of choosing devices, warming up, devices coming and going, failures, and WebRTC initializing, starting and stopping, against a reference model of which stream is open, runs and is heard; every schedule within the deviation bound of a sound card that delivers while recording stops or changes.");
    c.assume("The C library cubeb and WebRTC's C++ are stand-ins in the harness, which check how they are used: a stop waits for a callback that runs, a stream belongs to a library that is open, WebRTC starts what it initialized and does not initialize what it started.");
    c.assume("When a device cannot be opened or started, nothing is promised for that direction until WebRTC stops it; microphones are warmed up only before WebRTC records.");
    let one = |name: &str, c: &mut Check, f: &(dyn Fn() + Sync)| {
        c.schedules(name, &mc::Config { bound: 0, max_seconds: pick(120, 900), max_steps: 500_000, ..Default::default() }, f);
    };
    let sizes = [480, 0, 1, 479, 481, 960, 100];
    let n = pick(5, 6);
    one("playing", &mut c, &|| playing(&sizes, n, &[], 0));
    let answers = [Answer::Full, Answer::Some(0), Answer::Some(1), Answer::Some(479), Answer::Fail(-1), Answer::Fail(1)];
    let deep = pick(4, 5);
    one("playing_what_there_is", &mut c, &|| playing(&[480, 1, 481, 1000], 3, &answers, deep));
    one("recording", &mut c, &|| recording(&sizes, n));
    operations(&mut c, "microphone", pick(14, 40), true, false, &[IN]);
    operations(&mut c, "speakers", pick(14, 40), true, false, &[OUT]);
    operations(&mut c, "operations", pick(7, 20), true, false, &[IN, OUT]);
    operations(&mut c, "histories", pick(3, 4), false, false, &[IN, OUT]);
    operations(&mut c, "microphone_failures", pick(14, 40), true, true, &[IN]);
    operations(&mut c, "speaker_failures", pick(14, 40), true, true, &[OUT]);
    operations(&mut c, "failures", pick(6, 20), true, true, &[IN, OUT]);
    one("delays", &mut c, &delays);
    one("release", &mut c, &release);
    one("constants", &mut c, &constants);
    let cfg = mc::Config { bound: pick(4, 6), max_seconds: pick(60, 600), ..Default::default() };
    for (k, name) in ["warm_stop", "warm_device", "warm_voice", "warm_end", "stop", "device", "voice", "end"].iter().enumerate() {
        c.schedules(name, &cfg, &|| meanwhile(k));
    }
    c.sample(json!({"harnesses": 21}));
    c.finish();
}
