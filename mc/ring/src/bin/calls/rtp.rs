//! C32: what a peer says beside the media of a call. C33: what it is told, and how fast.
use std::{collections::BTreeMap, time::Duration};

use mclib::{Check, bfs::Limits, ensure, paths::Step, pick};
use mcstd::mc;
use prost::Message as _;
use ringrtc::{common::DataMode, core::signaling, protobuf::rtp_data, webrtc::{self, rtp_observer::RtpObserverTrait}};

use crate::{lifecycle::*, sim::*, world::*};

pub type Three = [Option<bool>; 3];

/// How a packet differs from what a peer sends.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Wire { Good, PayloadType, Ssrc, Empty, Garbage, Large }

/// What a packet says.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Say {
    pub seq: Option<u64>,
    pub other_call: bool,
    pub accepted: bool,
    pub hangup: bool,
    pub sender: Option<Three>,
    pub receiver: Option<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Up(Dev),
    Down(Dev),
    Accept,
    Packet(Dev, u32, Wire, Say),
    Route(Dev, bool),
    /// Low data mode or normal; through the connection's queue, or at once
    Mode(Dev, bool, bool),
    Status(Dev, Three),
    Estimate(Dev, u32),
    Wait(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Low { Watch(u64), Low(u64), Done }

/// A connection, as the statement has it.
#[derive(Clone, Debug, Hash)]
struct Link {
    up: bool,
    accepted: bool,
    talking: bool,
    lost: bool,
    stamp: u32,
    sender: Option<(u64, Three)>,
    receiver: Option<(u64, u64)>,
    local: u64,
    remote: Option<u64>,
    relayed: bool,
    told: rtp_data_key,
    low: Low,
    estimate: u32,
}
#[allow(non_camel_case_types)]
type rtp_data_key = (Option<u64>, bool, Option<Three>, Option<u64>);

impl Link {
    fn rate(&self) -> i32 {
        let mut r = self.local;
        if let Some(x) = self.remote { r = r.min(x); }
        if self.relayed { r = r.min(1_000_000); }
        r.max(30_000) as i32
    }
    fn message(&self, id: Id) -> rtp_data::Message {
        let (seqnum, accepted, sender, receiver) = self.told;
        rtp_data::Message {
            seqnum,
            accepted: accepted.then_some(rtp_data::Accepted { id: Some(id) }),
            sender_status: sender.map(|[v, s, a]| rtp_data::SenderStatus { id: Some(id), video_enabled: v, sharing_screen: s, audio_enabled: a }),
            receiver_status: receiver.map(|r| rtp_data::ReceiverStatus { id: Some(id), max_bitrate_bps: Some(r) }),
            ..Default::default()
        }
    }
}

pub struct Talk<'a> {
    s: Sim,
    id: Id,
    outgoing: bool,
    links: BTreeMap<Dev, Link>,
    winner: Option<Dev>,
    /// whole seconds since the call was accepted, and the time
    since: u64,
    rang: bool,
    over: Option<&'static str>,
    events: Vec<String>,
    low: Vec<bool>,
    sends: Vec<(Dev, rtp_data::Message)>,
    reached: Vec<&'static str>,
    acts: &'a (dyn Fn(&Talk) -> Vec<T> + Sync),
    merge: bool,
}

fn words(w: &Three) -> Vec<String> {
    ["Video", "SharingScreen", "Audio"].iter().zip(w).filter_map(|(n, x)| x.map(|x| format!("Remote{n}{}", if x { "Enable" } else { "Disable" }))).collect()
}

impl<'a> Talk<'a> {
    pub fn new(outgoing: bool, rate: Option<u64>, merge: bool, acts: &'a (dyn Fn(&Talk) -> Vec<T> + Sync), prefix: &[T]) -> Result<Talk<'a>, String> {
        let mut s = Sim::new();
        s.rate = rate;
        let (id, devs): (Id, &[Dev]) = if outgoing { (OUT, &[2, 3]) } else { (IN_LOW, &[2]) };
        if outgoing {
            for a in [Act::Call { peer: 1, id }, Act::Proceed(id), Act::Sent, Act::Answer { peer: 1, id, dev: 2 }, Act::Answer { peer: 1, id, dev: 3 }, Act::Media(2), Act::Media(3)] { s.apply(a); }
        } else {
            for a in [Act::Offer { peer: 1, id, dev: 2, expired: false }, Act::Proceed(id), Act::Sent, Act::Media(2)] { s.apply(a); }
        }
        let link = Link {
            up: false, accepted: false, talking: false, lost: false, stamp: 0, sender: None, receiver: None, local: 2_000_000, remote: rate, relayed: false,
            told: Default::default(), low: Low::Watch(0), estimate: 1_000_000,
        };
        let mut t = Talk {
            s, id, outgoing, links: devs.iter().map(|d| (*d, link.clone())).collect(), winner: None, since: 0, rang: false, over: None,
            events: vec![], low: vec![], sends: vec![], reached: vec![], acts, merge,
        };
        for &d in devs { t.s.c.w.pc(id, d).unwrap().measure(|m| m.bandwidth = 1_000_000); }
        let r = t.check().and_then(|_| prefix.iter().try_for_each(|a| t.apply(*a)));
        match r {
            Ok(()) => Ok(t),
            Err(e) => { t.s.close(); Err(e) }
        }
    }

    /// The first time that a connection is up and accepted.
    fn talk(&mut self, d: Dev) {
        let l = self.links.get_mut(&d).unwrap();
        l.talking = true;
        if let Some((_, r)) = l.receiver { l.remote = Some(r); }
        if let Some((_, s)) = l.sender { self.events.extend(words(&s)); }
        if !self.outgoing {
            l.told.1 = true;
            self.speak(d);
        }
        self.win(d);
        self.reached.push("talking");
    }
    /// The device the call is accepted on: it may still have to connect, the others are gone.
    fn win(&mut self, d: Dev) {
        self.winner = Some(d);
        for (k, l) in &mut self.links { if *k != d { l.lost = true; } }
    }
    fn speak(&mut self, d: Dev) {
        let id = self.id;
        let l = self.links.get_mut(&d).unwrap();
        l.told.0 = Some(l.told.0.unwrap_or(0) + 1);
        self.sends.push((d, l.message(id)));
    }
    fn second(&mut self) {
        let Some(d) = self.winner else { return };
        self.since += 1;
        let id = self.id;
        let l = self.links.get_mut(&d).unwrap();
        if !l.talking { return; }
        if l.told != rtp_data_key::default() {
            self.sends.push((d, l.message(id)));
            self.reached.push("said again");
        }
        match l.low {
            Low::Watch(until) => if l.told.2.is_some_and(|t| t[0] == Some(true)) {
                if !l.up {
                    l.low = Low::Watch(self.since + 10);
                } else if self.since > until && l.estimate < 60_000 {
                    self.low.push(false);
                    l.low = Low::Low(self.since);
                    self.reached.push("low bandwidth");
                }
            },
            Low::Low(at) => if self.since >= at + 6 && l.estimate > 70_000 {
                self.low.push(true);
                l.low = Low::Done;
                self.reached.push("bandwidth recovered");
            },
            Low::Done => {}
        }
    }
    fn heard(&mut self, d: Dev, stamp: u32, wire: Wire, m: Say) {
        if matches!(wire, Wire::PayloadType | Wire::Ssrc) { return; }
        let outgoing = self.outgoing;
        let l = self.links.get_mut(&d).unwrap();
        if stamp < l.stamp {
            self.reached.push("late packet");
            return;
        }
        l.stamp = stamp;
        if wire != Wire::Good { return; }
        if m.accepted {
            if !outgoing {
                self.over = Some("InternalFailure");
                return;
            }
            if !m.other_call && !l.accepted {
                l.accepted = true;
                if l.up { self.talk(d) } else { self.win(d) }
            }
        }
        if m.other_call {
            return;
        }
        if m.hangup {
            self.over = Some("RemoteHangup");
            return;
        }
        let Some(seq) = m.seq else { return };
        let l = self.links.get_mut(&d).unwrap();
        if let Some(s) = m.sender && l.sender.is_none_or(|(last, _)| seq > last) {
            if l.talking && l.sender.is_none_or(|(_, x)| x != s) {
                self.events.extend(words(&s));
                self.reached.push("sender status");
            }
            l.sender = Some((seq, s));
        } else if m.sender.is_some() { self.reached.push("old sender status"); }
        if let Some(r) = m.receiver && l.receiver.is_none_or(|(last, _)| seq > last) {
            if l.talking && l.receiver.is_none_or(|(_, x)| x != r) {
                l.remote = Some(r);
                self.reached.push("receiver status");
            }
            l.receiver = Some((seq, r));
        }
    }
    fn expect(&mut self, a: T) {
        match a {
            T::Up(d) => {
                let l = self.links.get_mut(&d).unwrap();
                l.up = true;
                self.rang = true;
                if l.accepted && !l.talking { self.talk(d); }
            }
            T::Down(d) => self.links.get_mut(&d).unwrap().up = false,
            T::Accept => {
                let l = self.links.get_mut(&2).unwrap();
                if l.up && !l.talking {
                    l.accepted = true;
                    self.talk(2);
                }
            }
            T::Packet(d, stamp, wire, m) => self.heard(d, stamp, wire, m),
            T::Route(d, r) => self.links.get_mut(&d).unwrap().relayed = r,
            T::Mode(d, low, _) => {
                let l = self.links.get_mut(&d).unwrap();
                let r = if low { 300_000 } else { 2_000_000 };
                if l.local != r {
                    l.local = r;
                    l.told.3 = Some(r);
                    self.speak(d);
                    self.reached.push("data mode");
                }
            }
            T::Status(d, t) => {
                let l = self.links.get_mut(&d).unwrap();
                if l.up || l.talking {
                    let was = l.told.2.unwrap_or_default();
                    l.told.2 = Some(std::array::from_fn(|i| t[i].or(was[i])));
                    self.speak(d);
                    self.reached.push("own status");
                }
            }
            T::Estimate(d, e) => self.links.get_mut(&d).unwrap().estimate = e,
            T::Wait(n) => for _ in 0..n { self.second(); },
        }
    }
    fn apply(&mut self, a: T) -> Result<(), String> {
        self.expect(a);
        self.inject(a);
        self.s.settle();
        self.check()
    }
    fn inject(&mut self, a: T) {
        mc::log(format!("{a:?}"));
        let id = self.id;
        match a {
            T::Up(d) => self.s.conn(d).unwrap().inject_ice_connected().unwrap(),
            T::Down(d) => self.s.conn(d).unwrap().inject_ice_disconnected().unwrap(),
            T::Accept => self.s.c.cm.accept_call(ringrtc::common::CallId::new(id)).unwrap(),
            T::Packet(d, timestamp, wire, m) => {
                let to = if m.other_call { id + 1000 } else { id };
                let p = rtp_data::Message {
                    accepted: m.accepted.then_some(rtp_data::Accepted { id: Some(to) }),
                    hangup: m.hangup.then(|| Hang::Normal.rtp(to).hangup.unwrap()),
                    sender_status: m.sender.map(|[v, s, a]| rtp_data::SenderStatus { id: Some(to), video_enabled: v, sharing_screen: s, audio_enabled: a }),
                    receiver_status: m.receiver.map(|r| rtp_data::ReceiverStatus { id: Some(to), max_bitrate_bps: Some(r) }),
                    seqnum: m.seq,
                };
                let mut b = p.encode_to_vec();
                match wire {
                    Wire::Empty => b.clear(),
                    Wire::Garbage => b.extend([0xff, 0xff, 0xff]),
                    // an unknown field of 8000 bytes
                    Wire::Large => { b.extend([0xfa, 0x3f, 0xc0, 0x3e]); b.extend([0u8; 8000]); }
                    _ => {}
                }
                let header = webrtc::rtp::Header {
                    pt: if wire == Wire::PayloadType { 100 } else { 101 }, ssrc: if wire == Wire::Ssrc { 0xE } else { 0xD }, seqnum: timestamp as u16, timestamp,
                };
                self.s.conn(d).unwrap().handle_rtp_received(header, &b);
            }
            T::Route(d, r) => self.s.conn(d).unwrap().inject_ice_network_route_changed(route(r)).unwrap(),
            T::Mode(d, low, direct) => {
                let m = if low { DataMode::Low } else { DataMode::Normal };
                let mut k = self.s.conn(d).unwrap();
                if direct { k.update_data_mode(m).unwrap() } else { k.inject_update_data_mode(m).unwrap() }
            }
            T::Status(d, [video_enabled, sharing_screen, audio_enabled]) =>
                self.s.conn(d).unwrap().update_sender_status(signaling::SenderStatus { video_enabled, sharing_screen, audio_enabled }).unwrap(),
            T::Estimate(d, e) => self.s.c.w.pc(id, d).unwrap().measure(|t| t.bandwidth = e),
            T::Wait(n) => mc::sleep(Duration::from_secs(n)),
        }
    }
    fn check(&self) -> Result<(), String> {
        let log = self.s.c.w.log.lock().unwrap().clone();
        let ended: Vec<&str> = log.iter().filter_map(|e| if let Ev::Ended { reason, .. } = e { Some(reason.as_str()) } else { None }).collect();
        ensure!(ended == self.over.into_iter().collect::<Vec<_>>(), "the call ended: {ended:?}, should {:?}", self.over);
        let events: Vec<&String> = log.iter().filter_map(|e| match e {
            Ev::Event { event, .. } if event.ends_with("Enable") || event.ends_with("Disable") => Some(event),
            _ => None,
        }).collect();
        ensure!(events == self.events.iter().collect::<Vec<_>>(), "the application was told {events:?}, should {:?}", self.events);
        let low: Vec<bool> = log.iter().filter_map(|e| if let Ev::LowBandwidth { recovered, .. } = e { Some(*recovered) } else { None }).collect();
        ensure!(low == self.low, "low bandwidth callbacks (recovered?) {low:?}, should be {:?}", self.low);
        let rtp = self.s.c.w.rtp.lock().unwrap();
        for (&d, l) in &self.links {
            let all: Vec<_> = rtp.iter().filter(|r| r.1 == d).collect();
            for (i, (_, _, h, _)) in all.iter().enumerate() {
                ensure!(h.pt == 101 && h.ssrc == 0xD && h.timestamp == i as u32 + 1 && h.seqnum == (i + 1) as u16, "packet {i} to device {d} has the header {h:?}");
            }
            if l.lost { continue; }
            let got: Vec<_> = all.iter().map(|r| rtp_data::Message::decode(&r.3[..]).unwrap()).filter(|m| m.hangup.is_none()).collect();
            let want: Vec<_> = self.sends.iter().filter(|s| s.0 == d).map(|s| s.1).collect();
            ensure!(got == want, "device {d} was told {:?}, should {:?}", got.iter().map(rtp_text).collect::<Vec<_>>(), want.iter().map(rtp_text).collect::<Vec<_>>());
            if self.over.is_some() { continue; }
            let rate = self.s.c.w.pc(self.id, d).unwrap().max_bitrate_bps();
            ensure!(rate == Some(l.rate()), "the rate to device {d} is at most {rate:?}, should be {} ({l:?})", l.rate());
        }
        Ok(())
    }
    fn choices(&self) -> Vec<T> {
        if self.over.is_some() { vec![] } else { (self.acts)(self) }
    }
    fn key(&self) -> String {
        if !self.merge { return String::new(); }
        format!("{:?} {:?} {:?} {} {:?} {:?} {:x}", self.links, self.winner, self.over, self.since % 10_000, self.low, self.events.len(), mclib::bfs::h128(&format!("{:?} {}", self.sends, self.s.view())))
    }
}

fn search(c: &mut Check, name: &str, depth: usize, seconds: f64, make: &(dyn Fn() -> Result<Talk<'static>, String> + Sync)) {
    let mut l = Limits::depth(depth);
    l.max_seconds = seconds;
    let cfg = mc::Config { bound: 0, max_steps: 400_000, ..Default::default() };
    let st = c.paths(name, l, &|choices| {
        run(
            || {
                let mut m = make()?;
                let r = (|| {
                    let mut acts = m.choices();
                    for &c in choices {
                        if c as usize >= acts.len() { mclib::die("replay of a known history diverged"); }
                        m.apply(acts[c as usize])?;
                        acts = m.choices();
                    }
                    let mut reached = m.reached.clone();
                    reached.sort();
                    reached.dedup();
                    Ok(Step { key: m.key(), arity: acts.len(), reached })
                })();
                m.s.close();
                r
            },
            &cfg,
            vec![],
        )
    });
    eprintln!("   {:?} {:?}", st.levels, st.covered);
}

const ON: Three = [Some(true), None, None];
const OFF: Three = [Some(false), None, None];
const SHARE: Three = [None, Some(true), Some(false)];

fn flips(t: &Talk, v: &mut Vec<T>) {
    for (&d, l) in &t.links {
        if !l.lost { v.push(if l.up { T::Down(d) } else { T::Up(d) }); }
    }
    // (a call that rings is accepted while its connection is up)
    if !t.outgoing && t.winner.is_none() && (t.links[&2].up || !t.rang) { v.push(T::Accept); }
}
fn sender(seq: u64, s: Three) -> Say { Say { seq: Some(seq), sender: Some(s), ..Default::default() } }
fn receiver(seq: u64, r: u64) -> Say { Say { seq: Some(seq), receiver: Some(r), ..Default::default() } }
const YES: Say = Say { seq: None, other_call: false, accepted: true, hangup: false, sender: None, receiver: None };

/// Statuses in every order, on an incoming call.
fn statuses(t: &Talk) -> Vec<T> {
    let mut v = vec![];
    flips(t, &mut v);
    let n = t.links[&2].stamp + 1;
    for s in [sender(1, ON), sender(2, OFF), sender(2, SHARE), sender(3, ON), receiver(1, 20_000), receiver(2, 500_000), receiver(3, 5_000_000),
        Say { receiver: Some(500_000), ..sender(3, OFF) }] {
        v.push(T::Packet(2, n, Wire::Good, s));
    }
    v
}
/// Statuses of two devices of which one accepts.
fn forked(t: &Talk) -> Vec<T> {
    let mut v = vec![];
    flips(t, &mut v);
    for (&d, l) in &t.links {
        if l.lost { continue; }
        let n = l.stamp + 1;
        for s in [Say { seq: Some(1), ..YES }, Say { sender: Some(ON), seq: Some(2), ..YES }, Say { other_call: true, ..YES }, sender(1, OFF), sender(2, SHARE), receiver(1, 400_000)] {
            v.push(T::Packet(d, n, Wire::Good, s));
        }
    }
    v
}
/// Packets that are not as they should be.
fn packets(t: &Talk) -> Vec<T> {
    let mut v = vec![];
    let d = t.winner.unwrap_or(2);
    let l = &t.links[&d];
    let n = l.stamp;
    let k = l.sender.map_or(0, |s| s.0).saturating_add(1);
    let s = if k % 2 == 0 { ON } else { OFF };
    for w in [Wire::Good, Wire::PayloadType, Wire::Ssrc, Wire::Empty, Wire::Garbage, Wire::Large] {
        v.push(T::Packet(d, n.saturating_add(5), w, sender(k, s)));
    }
    for (stamp, m) in [
        (n, sender(k, s)), (n.saturating_sub(1), sender(k, s)), (n.saturating_add(1), Say { other_call: true, ..sender(k, s) }), (n.saturating_add(1), Say { seq: None, ..sender(k, s) }),
        (n.saturating_add(1), Say { seq: None, ..receiver(1, 100_000) }), (n.saturating_add(1), Say { other_call: true, ..receiver(k, 100_000) }),
        (n.saturating_add(1), Say { other_call: true, ..YES }), (n.saturating_add(1), YES), (n.saturating_add(1), Say { hangup: true, ..Default::default() }), (n.saturating_add(1), Say { hangup: true, other_call: true, ..Default::default() }),
        (n.saturating_add(1), Say::default()), (u32::MAX, sender(k, s)), (n.saturating_add(1), sender(u64::MAX, s)),
    ] {
        v.push(T::Packet(d, stamp, Wire::Good, m));
    }
    v
}
/// The rate the connection may send at.
fn rates(t: &Talk) -> Vec<T> {
    let mut v = vec![];
    flips(t, &mut v);
    let l = &t.links[&2];
    for r in [0, 29_999, 300_001, 999_999, 1_500_000, 5_000_000] {
        v.push(T::Packet(2, l.stamp + 1, Wire::Good, receiver(l.receiver.map_or(0, |r| r.0) + 1, r)));
    }
    v.push(T::Route(2, !l.relayed));
    v.push(T::Mode(2, l.local > 300_000, false));
    v.push(T::Mode(2, true, true));
    v
}
/// What the peer is told, and how often.
fn speaking(t: &Talk) -> Vec<T> {
    let mut v = vec![];
    flips(t, &mut v);
    for s in [ON, OFF, SHARE, [None; 3], [None, Some(false), None]] { v.push(T::Status(2, s)); }
    let l = &t.links[&2];
    v.push(T::Mode(2, l.local > 300_000, false));
    v.push(T::Mode(2, l.local > 300_000, true));
    v.extend([T::Wait(1), T::Wait(3)]);
    v
}
/// Low bandwidth.
fn low(t: &Talk) -> Vec<T> {
    let mut v = vec![];
    flips(t, &mut v);
    let l = &t.links[&2];
    for e in [59_999, 60_000, 70_000, 70_001] { if e != l.estimate { v.push(T::Estimate(2, e)); } }
    v.push(T::Status(2, if l.told.2 == Some(ON) { OFF } else { ON }));
    v.extend([T::Wait(1), T::Wait(5), T::Wait(10)]);
    v
}

/// Two threads at work on one connection: they do not wait for one another for ever, and nothing is lost.
fn race(c: &mut Check, name: &str, inputs: &'static [T]) {
    let cfg = mc::Config { bound: pick(2, 3), max_steps: 200_000, max_seconds: pick(20, 100), ..Default::default() };
    c.schedules(name, &cfg, &|| {
        mc::set_deviations(false);
        let mut t = Talk::new(false, None, false, &|_| vec![], &[T::Up(2), T::Accept]).unwrap_or_else(|e| panic!("{e}"));
        for &a in inputs { t.expect(a); }
        mc::set_deviations(true);
        for &a in inputs { t.inject(a); }
        t.s.settle();
        mc::set_deviations(false);
        // messages may leave in either order; what was said last is what was said
        let rate = t.s.c.w.pc(t.id, 2).unwrap().max_bitrate_bps();
        let sent = t.s.c.w.pc(t.id, 2).unwrap().last_sent_rtp_message();
        mc::outcome(format!("{rate:?}"));
        let want = (t.links[&2].rate(), t.links[&2].message(t.id));
        t.s.close();
        if rate != Some(want.0) { panic!("the rate is {rate:?}, should be {}", want.0); }
        if sent != Some(want.1) { panic!("the peer was told {:?} last, should {:?}", sent.as_ref().map(rtp_text), rtp_text(&want.1)); }
        mc::set_quiet(true);
    });
}

pub fn c32() {
    let mut c = Check::new("C32", "model_checking");
    let s = pick(60.0, 200.0);
    search(&mut c, "statuses before and after acceptance", pick(4, 5), s, &|| Talk::new(false, None, false, &statuses, &[]));
    search(&mut c, "statuses, longer", pick(9, 12), s, &|| Talk::new(false, None, true, &statuses, &[]));
    search(&mut c, "two devices", pick(7, 9), s, &|| Talk::new(true, None, true, &forked, &[]));
    search(&mut c, "odd packets on an incoming call", pick(4, 5), s, &|| Talk::new(false, None, false, &packets, &[T::Up(2), T::Accept]));
    search(&mut c, "odd packets on an outgoing call", pick(4, 5), s, &|| Talk::new(true, None, false, &packets, &[T::Up(2), T::Packet(2, 3, Wire::Good, YES)]));
    search(&mut c, "odd packets, longer", pick(6, 8), s, &|| Talk::new(true, None, true, &packets, &[T::Up(2), T::Packet(2, 3, Wire::Good, YES)]));
    c.finish()
}

pub fn c33() {
    let mut c = Check::new("C33", "model_checking");
    let s = pick(60.0, 200.0);
    search(&mut c, "rates", pick(6, 8), s, &|| Talk::new(false, None, true, &rates, &[]));
    search(&mut c, "rates of an accepted call", pick(4, 5), s, &|| Talk::new(false, None, false, &rates, &[T::Up(2), T::Accept]));
    search(&mut c, "rates, when the offer asks for one", pick(5, 7), s, &|| Talk::new(false, Some(700_000), true, &rates, &[]));
    search(&mut c, "rates, when the answer asks for one", pick(5, 7), s, &|| Talk::new(true, Some(10_000), true, &rates, &[]));
    search(&mut c, "what is said", pick(6, 7), s, &|| Talk::new(false, None, true, &speaking, &[]));
    search(&mut c, "low bandwidth", pick(7, 9), s, &|| Talk::new(false, None, true, &low, &[T::Up(2), T::Accept]));
    search(&mut c, "low bandwidth with video", pick(7, 9), s, &|| Talk::new(false, None, true, &low, &[T::Up(2), T::Accept, T::Status(2, ON), T::Estimate(2, 59_999), T::Wait(1)]));
    for (name, inputs) in [
        ("route and data mode", &[T::Route(2, true), T::Mode(2, true, true)][..]),
        ("route and data mode, queued", &[T::Mode(2, true, false), T::Route(2, true)]),
        ("data mode and receiver status", &[T::Mode(2, true, false), T::Packet(2, 1, Wire::Good, Say { seq: Some(1), other_call: false, accepted: false, hangup: false, sender: None, receiver: Some(100_000) })]),
        ("own status and data mode", &[T::Status(2, ON), T::Mode(2, true, true), T::Status(2, SHARE)]),
    ] {
        race(&mut c, name, inputs);
    }
    c.finish()
}
