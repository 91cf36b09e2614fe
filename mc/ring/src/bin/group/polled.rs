//! C30: what a group call tells of what it measures. C31: when it asks the SFU who is there.
use std::{collections::BTreeSet, time::Duration};

use mclib::{Check, ensure, pick};
use mcstd::mc;
use ringrtc::{
    core::group_call::GroupCallKind,
    lite::sfu::GroupMember,
    protobuf::group_call::{DeviceToDevice, SfuToDevice, sfu_to_device::{DeviceJoinedOrLeft, PeekInfo, peek_info::PeekDeviceInfo}},
};

use crate::world::*;

const ME: User = 1;
const MY_DEMUX: Demux = 16;
fn now() -> u64 { mc::now() / 1_000_000 }

// ---------------------------------------------------------------------------------------------- C30
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Measure {
    Level(u16),
    Mute(bool),
    Leave,
    /// in bits per second
    Bandwidth(u32),
    Others(bool),
    Ice(u32),
    Wait(u64),
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Low { Unwatched, Watched(u64), Told { at: u64, next: u64 }, Over }
pub struct Measured {
    o: One,
    speech: bool,
    in_call: bool,
    level: u16,
    muted: bool,
    /// the pause-free start of the current speech, and of the pause it is in
    spoke: Option<u64>,
    pause: Option<u64>,
    told: Option<&'static str>,
    next_levels: u64,
    bandwidth: u32,
    connected: bool,
    others: bool,
    low: Low,
    timestamp: u32,
    reached: Vec<&'static str>,
}
const LEVELS: u64 = 1000;
impl Measured {
    fn new(speech: bool, before: &[Measure]) -> Result<Measured, String> {
        let o = One::new(Setup { kind: GroupCallKind::SignalGroup, user: Some(ME), levels: speech.then(|| Duration::from_millis(LEVELS)), ..Default::default() });
        o.pc().measure(|t| t.bandwidth = 100_000);
        o.client.set_membership_proof(vec![1]);
        mc::quiesce();
        let mut m = Measured {
            o, speech, in_call: true, level: 0, muted: true, spoke: None, pause: None, told: None, next_levels: now() + LEVELS,
            bandwidth: 100_000, connected: false, others: false, low: Low::Unwatched, timestamp: 1, reached: vec![],
        };
        m.o.connect();
        m.o.client.join();
        mc::quiesce();
        m.o.joined(MY_DEMUX, false, Some(ME), "era", KEY);
        mc::quiesce();
        m.o.fresh();
        if speech { m.apply(Measure::Mute(false))?; }
        for a in before { m.apply(*a)?; }
        Ok(m)
    }
    fn tick(&mut self, t: u64, want: &mut Vec<Ev>) {
        if self.in_call {
            let loud = self.level > 1000 && !self.muted;
            if loud {
                self.spoke.get_or_insert(t);
                self.pause = None;
            } else if t - *self.pause.get_or_insert(t) >= 3000 {
                self.spoke = None;
            }
            let length = self.spoke.map_or(0, |s| self.pause.unwrap_or(t).saturating_sub(s));
            if length >= 5000 {
                if self.told != Some("lower hand") { want.push(Ev::Speak("lower hand")); self.reached.push("spoke for long"); }
                self.told = Some("lower hand");
            } else if length == 0 && self.told == Some("lower hand") {
                want.push(Ev::Speak("stopped"));
                self.reached.push("stopped speaking");
                self.told = Some("stopped");
            }
            if self.speech && t >= self.next_levels {
                want.push(Ev::Levels(self.level, vec![]));
                self.next_levels = t + LEVELS;
            }
        }
        match self.low {
            Low::Watched(_) if !self.connected => { self.low = Low::Watched(t + 10_000); self.reached.push("not connected"); }
            Low::Watched(at) if t >= at => {
                if self.bandwidth < 70_000 {
                    want.push(Ev::LowBandwidth(false));
                    self.low = Low::Told { at: t, next: t + 1000 };
                    self.reached.push("low bandwidth");
                } else { self.low = Low::Watched(t + 1000); }
            }
            Low::Told { at, next } if t >= next && t >= at + 6000 => {
                if self.bandwidth > 80_000 {
                    want.push(Ev::LowBandwidth(true));
                    self.low = Low::Over;
                    self.reached.push("bandwidth recovered");
                } else { self.low = Low::Told { at, next: t + 1000 }; }
            }
            _ => {}
        }
    }
}
impl Model for Measured {
    type Act = Measure;
    fn acts(&self) -> Vec<Measure> {
        use Measure::*;
        let mut v = vec![];
        if self.speech {
            v.extend([Level(0), Level(1000), Level(1001)]);
            v.extend([Mute(!self.muted), Wait(200), Wait(1000), Wait(2800), Wait(5000)]);
            if self.in_call { v.push(Leave); }
        } else {
            for b in [69_999, 70_000, 80_000, 80_001] { if b != self.bandwidth { v.push(Bandwidth(b)); } }
            v.push(Others(!self.others));
            v.push(Ice(if self.connected { 5 } else { 2 }));
            v.extend([Wait(200), Wait(1000), Wait(5000), Wait(10_000)]);
        }
        v
    }
    fn apply(&mut self, a: Measure) -> Result<(), String> {
        let mut want = vec![];
        match a {
            Measure::Level(l) => { self.level = l; self.o.pc().measure(|t| t.captured_level = l); }
            Measure::Mute(m) => { self.muted = m; self.o.client.set_outgoing_audio_muted(m); }
            Measure::Leave => { self.in_call = false; self.o.client.leave(); }
            Measure::Bandwidth(b) => { self.bandwidth = b; self.o.pc().measure(|t| t.bandwidth = b); }
            Measure::Ice(i) => { self.connected = i == 2; self.o.ice(i); }
            Measure::Others(o) => {
                self.others = o;
                self.timestamp += 1;
                let mut l = vec![(MY_DEMUX, Some(ME))];
                if o { l.push((32, Some(2))); }
                self.o.pushed(&l, self.timestamp);
                self.low = match (self.low, o) {
                    (Low::Unwatched, true) => Low::Watched(now() + 1000),
                    (Low::Watched(_), false) => Low::Unwatched,
                    (l, _) => l,
                };
            }
            Measure::Wait(ms) => {
                let (mut t, end) = (now(), now() + ms);
                while t < end { t += 200; self.tick(t, &mut want); }
                mc::advance(Duration::from_millis(ms));
            }
        }
        mc::quiesce();
        let got: Vec<Ev> = self.o.fresh().into_iter().map(|e| e.1).filter(|e| matches!(e, Ev::Speak(_) | Ev::Levels(..) | Ev::LowBandwidth(_))).collect();
        ensure!(got == want, "the application is told {got:?} instead of {want:?}");
        Ok(())
    }
    fn reached(&self) -> Vec<&'static str> { self.reached.iter().copied().collect::<BTreeSet<_>>().into_iter().collect() }
    fn close(self) { self.o.close() }
}
pub fn c30() {
    let mut c = Check::new("C30", "model_checking");
    let s = pick(120.0, 400.0);
    search(&mut c, "speech", pick(6, 7), s, &|| Measured::new(true, &[]));
    search(&mut c, "bandwidth", pick(5, 7), s, &|| Measured::new(false, &[]));
    search(&mut c, "low bandwidth", pick(6, 7), s, &|| Measured::new(false, &[Measure::Ice(2), Measure::Others(true), Measure::Bandwidth(69_999), Measure::Wait(1000)]));
    c.finish()
}

// ---------------------------------------------------------------------------------------------- C31
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Poll {
    Proof,
    Members(u8),
    Join,
    LetIn,
    /// an answer to the oldest or the newest question
    Answer { newest: bool, ok: bool },
    Pushed,
    /// the SFU says that somebody came or left, but not who
    Notice,
    /// data or keys of a device that is not known, or is
    Data(Demux),
    Key(Demux),
    Leaving(Demux),
    Wait(u64),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Asked { NotAllowed, Never, Waiting { since: u64, again: bool }, Known(u64), Failed(u64) }
pub struct Polled {
    o: One,
    asked: Asked,
    /// what the client should have asked since the last look
    asks: usize,
    members: u8,
    joined: Option<bool>,
    listed: bool,
    left: bool,
    later: Vec<u64>,
    timestamp: u32,
    reached: Vec<&'static str>,
}
impl Polled {
    fn new(kind: GroupCallKind, inside: bool) -> Result<Polled, String> {
        let link = kind == GroupCallKind::CallLink;
        let o = One::new(Setup { kind, user: Some(ME), ..Default::default() });
        let mut p = Polled {
            o, asked: if link { Asked::Never } else { Asked::NotAllowed }, asks: 0, members: 0, joined: None, listed: false, left: false, later: vec![],
            timestamp: 1, reached: vec![],
        };
        p.at_once();
        p.o.connect();
        mc::quiesce();
        p.tick();
        p.look()?;
        if inside {
            for a in [Poll::Proof, Poll::Join, Poll::LetIn] { p.apply(a)?; }
            p.o.ice(2);
            while !p.o.w.peeks.lock().unwrap().is_empty() { p.apply(Poll::Answer { newest: false, ok: true })?; }
            p.apply(Poll::Pushed)?;
        }
        Ok(p)
    }
    fn ask(&mut self, max_age: u64, insist: bool) {
        let t = now();
        self.ask_at(t, max_age, insist)
    }
    fn ask_at(&mut self, t: u64, max_age: u64, insist: bool) {
        let due = match self.asked {
            Asked::NotAllowed => false,
            Asked::Never => true,
            Asked::Waiting { since, .. } => t > since + 5000,
            Asked::Known(at) => t >= at + max_age,
            Asked::Failed(at) => t > at + 5000,
        };
        if due {
            if matches!(self.asked, Asked::Waiting { .. }) { self.reached.push("asked again for want of an answer"); }
            if matches!(self.asked, Asked::Failed(_)) { self.reached.push("asked again after a failure"); }
            self.asks += 1;
            self.asked = Asked::Waiting { since: t, again: false };
        } else if insist && let Asked::Waiting { since, .. } = self.asked {
            self.asked = Asked::Waiting { since, again: true };
        }
    }
    fn at_once(&mut self) { self.ask(0, true) }
    fn tick(&mut self) { self.ask(10_000, false) }
    fn known(&mut self) {
        let again = matches!(self.asked, Asked::Waiting { again: true, .. });
        self.asked = Asked::Known(now());
        self.listed = true;
        if again { self.reached.push("asked again after the answer"); self.at_once(); }
    }
    fn look(&mut self) -> Result<(), String> {
        let got = self.o.fresh().iter().filter(|e| e.1 == Ev::SfuPeek).count();
        ensure!(got == self.asks, "the SFU is asked {got} times instead of {} ({:?})", self.asks, self.asked);
        self.asks = 0;
        Ok(())
    }
    fn list(&self) -> Vec<(Demux, Option<User>)> {
        let mut v = vec![(32, Some(2))];
        if self.joined == Some(true) { v.insert(0, (MY_DEMUX, Some(ME))); }
        v
    }
    /// a device that is in the list, for a client that is in the call
    fn there(&self, d: Demux) -> bool { self.joined == Some(true) && self.listed && d == 32 }
}
impl Model for Polled {
    type Act = Poll;
    fn acts(&self) -> Vec<Poll> {
        use Poll::*;
        let mut v = vec![Proof, Members(1), Members(2)];
        if self.joined.is_none() { v.push(Join); }
        if self.o.joins() > 0 { v.push(LetIn); }
        match self.o.peeks() {
            0 => {}
            1 => v.extend([Answer { newest: false, ok: true }, Answer { newest: false, ok: false }]),
            _ => v.extend([Answer { newest: false, ok: true }, Answer { newest: false, ok: false }, Answer { newest: true, ok: true }, Answer { newest: true, ok: false }]),
        }
        if self.joined == Some(true) { v.extend([Pushed, Notice, Data(32), Data(48), Key(32), Key(48), Leaving(32), Leaving(48)]); }
        v.extend([Wait(200), Wait(2000), Wait(5000), Wait(5200), Wait(10_000)]);
        v
    }
    fn apply(&mut self, a: Poll) -> Result<(), String> {
        match a {
            Poll::Proof => {
                self.o.client.set_membership_proof(vec![1]);
                if self.asked == Asked::NotAllowed { self.asked = Asked::Never; self.at_once(); }
            }
            Poll::Members(n) => {
                self.o.client.set_group_members((1..=n + 1).map(|u| GroupMember { user_id: uid(u), member_id: format!("u{u}").into() }).collect());
                if n != self.members { self.at_once(); }
                self.members = n;
            }
            Poll::Join => { self.o.client.join(); self.joined = Some(false); }
            Poll::LetIn => {
                self.o.joined(MY_DEMUX, false, Some(ME), "era", KEY);
                self.at_once();
                self.joined = Some(true);
                // the earlier list counts as if it came now
                if self.listed { self.known(); }
            }
            Poll::Answer { newest, ok } => {
                let cb = { let mut p = self.o.w.peeks.lock().unwrap(); if newest { p.pop().unwrap() } else { p.remove(0) } };
                if ok { cb(Ok(peek_info(&self.list()))); self.known(); } else {
                    cb(Err(ringrtc::lite::http::ResponseStatus { code: 500 }));
                    self.asked = Asked::Failed(now());
                }
            }
            Poll::Pushed => {
                self.timestamp += 1;
                // members are named by their member ids, once these are known
                let name = |u: User| if self.members > 0 { ringrtc::lite::sfu::sha256_as_hexstring(format!("u{u}").as_bytes()) } else { format!("u{u}") };
                let devices = self.list().iter().map(|(d, u)| PeekDeviceInfo { demux_id: Some(*d), opaque_user_id: u.map(name) }).collect();
                let peek_info = Some(PeekInfo { era_id: Some("era".into()), max_devices: Some(16), devices, ..Default::default() });
                self.o.from_sfu(self.timestamp, &SfuToDevice { device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info }), ..Default::default() });
                self.known();
            }
            Poll::Notice => {
                self.timestamp += 1;
                self.o.from_sfu(self.timestamp, &SfuToDevice { device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info: None }), ..Default::default() });
                self.at_once();
            }
            Poll::Data(d) => {
                self.timestamp += 1;
                Mouth::new(d, 7, 0).tell(&self.o, self.timestamp, &DeviceToDevice::default());
                if !self.there(d) { self.at_once(); self.reached.push("unknown device"); }
            }
            Poll::Key(d) => {
                let (c, s) = Mouth::new(d, 7, 0).key();
                self.o.signal(2, key_message(d, c, &s));
                if !self.there(d) { self.at_once(); self.reached.push("unknown device"); }
            }
            Poll::Leaving(d) => {
                self.o.signal(2, leaving_message(d));
                if self.there(d) && !self.left {
                    self.left = true;
                    self.at_once();
                    self.later.push(now() + 2000);
                    self.reached.push("a device leaves");
                }
            }
            Poll::Wait(ms) => {
                let (mut t, end) = (now(), now() + ms);
                while t < end {
                    t += 200;
                    // which of the two comes first does not matter for how often it asks
                    let later = self.later.contains(&t);
                    if later { self.ask_at(t, 0, true); }
                    self.ask_at(t, 10_000, false);
                }
                self.later.retain(|l| *l > end);
                mc::advance(Duration::from_millis(ms));
            }
        }
        mc::quiesce();
        self.look()
    }
    fn reached(&self) -> Vec<&'static str> { self.reached.iter().copied().collect::<BTreeSet<_>>().into_iter().collect() }
    fn close(self) { self.o.close() }
}
pub fn c31() {
    let mut c = Check::new("C31", "model_checking");
    let s = pick(100.0, 400.0);
    search(&mut c, "group", pick(6, 7), s, &|| Polled::new(GroupCallKind::SignalGroup, false));
    search(&mut c, "call link", pick(5, 6), s, &|| Polled::new(GroupCallKind::CallLink, false));
    search(&mut c, "in the call", pick(4, 5), s, &|| Polled::new(GroupCallKind::SignalGroup, true));
    c.finish()
}
