//! One real call manager and everything around it, as a transition system: the choices at a state are
//! the inputs that can arrive there, each applied and followed until nothing can run without the clock
//! moving.  Histories are lists of choices; each is executed from the start.
use std::{
    collections::{BTreeMap, BTreeSet},
    net::SocketAddr,
    sync::Mutex,
    time::Duration,
};

use mclib::{ensure, paths::Step};
use mcstd::mc;
use ringrtc::{
    common::CallId,
    core::{connection::Connection, signaling},
    protobuf::{self, rtp_data},
    webrtc::{self, media::MediaStream, peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol}},
};

use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Hang { Normal, Accepted(Dev), Declined(Dev), Busy(Dev), Permission(Option<Dev>) }
impl Hang {
    pub fn real(self) -> signaling::Hangup {
        match self {
            Hang::Normal => signaling::Hangup::Normal,
            Hang::Accepted(d) => signaling::Hangup::AcceptedOnAnotherDevice(d),
            Hang::Declined(d) => signaling::Hangup::DeclinedOnAnotherDevice(d),
            Hang::Busy(d) => signaling::Hangup::BusyOnAnotherDevice(d),
            Hang::Permission(d) => signaling::Hangup::NeedPermission(d),
        }
    }
    pub fn rtp(self, id: Id) -> protobuf::rtp_data::Message {
        let (t, d) = self.real().to_type_and_device_id();
        rtp_data::Message {
            hangup: Some(rtp_data::Hangup { id: Some(id), r#type: Some(t as i32), device_id: d }),
            ..Default::default()
        }
    }
}

/// An input.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Act {
    // the application
    Call { peer: u8, id: Id },
    Proceed(Id),
    Accept(Id),
    DropCall(Id),
    Hangup,
    Reset,
    Sent,
    Failed,
    // signaling from the network
    Offer { peer: u8, id: Id, dev: Dev, expired: bool },
    Answer { peer: u8, id: Id, dev: Dev },
    Ice { peer: u8, id: Id, dev: Dev },
    RemoteHangup { peer: u8, id: Id, dev: Dev, hang: Hang },
    RemoteBusy { peer: u8, id: Id, dev: Dev },
    /// so many messages of one candidate each, all different
    IceMany { peer: u8, id: Id, dev: Dev, n: u16 },
    // WebRTC, on the connection with a device of the active call
    IceConnected(Dev),
    IceDisconnected(Dev),
    IceFailed(Dev),
    Gathered(Dev),
    /// a candidate of a child connection that is not for its device alone (the parent gathers the same)
    GatheredShared(Dev),
    Media(Dev),
    Route(Dev),
    RtpAccepted(Dev),
    /// accepted, but for another call
    RtpAcceptedOther(Dev),
    RtpHangup(Dev, Hang),
    RtpStatus(Dev),
    // time
    Wait(u64),
    /// from now on, this callback fails (until `Repaired`)
    Fault(&'static str),
    Repaired,
}

/// One input, or two at once.
pub type Input = (Act, Option<Act>);
pub fn single(v: Vec<Act>) -> Vec<Input> {
    v.into_iter().map(|a| (a, None)).collect()
}

/// What a call has been through, as seen from outside.
#[derive(Clone, Debug, Default)]
pub struct Track {
    pub peer: u8,
    pub outgoing: bool,
    pub starts: u32,
    pub ended: Vec<String>,
    pub concluded: u32,
    pub accepted: bool,
    /// devices whose acceptance arrived over RTP data
    pub remote_accepts: BTreeSet<Dev>,
    pub events: Vec<Ev>,
    /// local candidates gathered / sent, per connection
    pub gathered: BTreeMap<Dev, Vec<String>>,
    pub sent: BTreeMap<Dev, Vec<String>>,
    pub offers: u32,
    pub answers: BTreeSet<Dev>,
    pub answers_in: BTreeSet<Dev>,
    pub media_connected: BTreeSet<Dev>,
    /// WebRTC: connected now, connected once, incoming media there
    pub ice_now: BTreeSet<Dev>,
    pub ice_ever: BTreeSet<Dev>,
    pub media: BTreeSet<Dev>,
}

impl Track {
    fn ice_up(&mut self, d: Dev) {
        self.ice_now.insert(d);
        self.ice_ever.insert(d);
    }
    pub fn told(&self, what: &str) -> usize {
        self.events.iter().filter(|e| matches!(e, Ev::Event { event, .. } if event == what)).count()
    }
    pub fn rtp_sent(&self, what: &str) -> usize {
        self.events.iter().filter(|e| matches!(e, Ev::Rtp { msg, .. } if msg.contains(what))).count()
    }
}

pub struct Sim {
    pub c: Client,
    pub acts: Vec<Act>,
    pub calls: BTreeMap<Id, Track>,
    /// what the last input produced
    pub last: Vec<Ev>,
    /// the signaling message that the application has not confirmed yet
    pub in_flight: Option<(Id, Ev)>,
    pub base_threads: usize,
    pub ice_in: u32,
    /// the rate that offers and answers of the peer ask for
    pub rate: Option<u64>,
    pub gathered: u32,
    pub rtp_in: u32,
    pub resets: u32,
    /// two inputs have arrived at once
    pub raced: bool,
    /// before the last input
    pub prev_active: Option<Id>,
    pub prev_state: Option<String>,
    pub prev_dev: Option<Dev>,
    pub prev_in_flight: Option<(Id, Ev)>,
    /// the active connection was up
    pub prev_conn_up: bool,
    pub prev_conns: BTreeMap<Dev, String>,
    /// hangups that have to be handed to the application, per call
    pub due: BTreeMap<Id, Vec<String>>,
    /// what has to become of messages that came before their offer
    pub early: Early,
    pub addresses: u16,
    /// a message may not follow before the application confirms the last one
    pub flight: bool,
    pub prev_flight: bool,
    /// messages that were sent while another was not confirmed
    pub overlap: Vec<Ev>,
    /// a new call has let the messages flow while one was not confirmed
    pub released: bool,
    /// the order in which messages left: call and kind
    pub order: Vec<Ev>,
}

pub const LOCAL: Dev = 1;

/// A candidate that can be recognized where it arrives.
pub fn address(n: u16) -> SocketAddr { SocketAddr::from(([10, 0, 0, 1], 1000 + n)) }

/// What came before its offer.
#[derive(Clone, Debug, Default)]
pub struct Early {
    /// the call, the peer, and either a hangup or candidates
    pub kept: Option<(Id, u8, Kept)>,
    /// for the call that has started
    pub take: Option<Kept>,
    pub wanted: BTreeMap<Id, Vec<u16>>,
}
#[derive(Clone, Debug)]
pub enum Kept { Hang(Dev, Hang), Ice(Vec<(Dev, u16)>) }

impl Sim {
    pub fn new() -> Sim {
        let c = Client::new();
        mc::quiesce();
        Sim {
            c, acts: vec![], calls: BTreeMap::new(), last: vec![], in_flight: None,
            base_threads: mc::live_threads(), ice_in: 0, rate: None, gathered: 0, rtp_in: 0, resets: 0, raced: false,
            prev_active: None, prev_state: None, prev_dev: None, prev_in_flight: None, prev_conn_up: false,
            prev_conns: BTreeMap::new(), due: BTreeMap::new(), early: Early::default(), addresses: 0,
            flight: false, prev_flight: false, overlap: vec![], released: false, order: vec![],
        }
    }
    pub fn active(&self) -> Option<Id> { self.c.active() }
    pub fn conn(&self, dev: Dev) -> Option<Connection<P>> { self.c.conn(dev) }
    pub fn conn_state(&self, dev: Dev) -> Option<String> { self.conn(dev).and_then(|c| c.state().ok()).map(|s| format!("{s:?}")) }
    pub fn call_state(&self) -> Option<String> {
        self.c.cm.active_call().ok().and_then(|c| c.state().ok()).map(|s| format!("{s:?}"))
    }
    pub fn active_dev(&self) -> Option<Dev> { self.c.cm.active_call().ok().and_then(|c| c.active_device_id().ok()) }
    pub fn track(&self) -> Option<&Track> { self.active().and_then(|i| self.calls.get(&i)) }

    /// Applies one input and everything that follows from it.
    pub fn apply(&mut self, a: Act) {
        self.before();
        self.inject(a);
        self.settle();
    }
    /// Two inputs, the second before anything has come of the first.
    pub fn both(&mut self, i: Input) {
        self.before();
        self.inject(i.0);
        if let Some(b) = i.1 {
            self.raced = true;
            self.inject(b);
        }
        self.settle();
    }
    pub fn before(&mut self) {
        self.prev_active = self.active();
        self.prev_state = self.call_state();
        self.prev_dev = self.active_dev();
        self.prev_in_flight = self.in_flight.clone();
        self.prev_flight = self.flight;
        self.prev_conns = (1..=3).filter_map(|d| self.conn_state(d).map(|s| (d, s))).collect();
        self.prev_conn_up = matches!((self.track(), self.prev_dev), (Some(t), Some(d)) if t.ice_now.contains(&d));
    }
    pub fn inject(&mut self, a: Act) {
        mc::log(format!("{a:?}"));
        self.acts.push(a);
        let answering = self.in_flight.as_ref().map(|f| f.0).unwrap_or(0);
        let active = self.active();
        match a {
            Act::Call { peer, id } => {
                self.calls.entry(id).or_insert_with(|| Track { peer, outgoing: true, ..Default::default() });
                self.c.call(peer, id, LOCAL)
            }
            Act::Proceed(id) => self.c.proceed(id),
            Act::Accept(id) => {
                if let Some(t) = self.calls.get_mut(&id) { t.accepted = true; }
                self.c.cm.accept_call(CallId::new(id)).unwrap()
            }
            Act::DropCall(id) => self.c.cm.drop_call(CallId::new(id)).unwrap(),
            Act::Hangup => self.c.cm.hangup().unwrap(),
            Act::Reset => { self.resets += 1; self.in_flight = None; self.flight = false; self.c.cm.reset().unwrap() }
            Act::Sent => { self.in_flight = None; self.flight = false; self.released = false; self.c.cm.message_sent(CallId::new(answering)).unwrap() }
            Act::Failed => { self.in_flight = None; self.flight = false; self.released = false; self.c.cm.message_send_failure(CallId::new(answering)).unwrap() }
            Act::Offer { peer, id, dev, expired } => {
                self.calls.entry(id).or_insert_with(|| Track { peer, outgoing: false, ..Default::default() });
                let age = if expired { Duration::from_secs(61) } else { Duration::from_secs(1) };
                self.c.received_offer(peer, id, dev, LOCAL, age, offer_with(7, self.rate))
            }
            Act::Answer { peer, id, dev } => {
                if let Some(t) = self.calls.get_mut(&id) { t.answers_in.insert(dev); }
                self.c.received_answer(peer, id, dev, answer_with(10 + dev as u8, self.rate))
            }
            Act::Ice { peer, id, dev } => {
                self.ice_in += 1;
                let n = self.ice_in;
                self.c.received_ice(peer, id, dev, vec![candidate(n)])
            }
            Act::IceMany { peer, id, dev, n } => for _ in 0..n {
                let at = address(self.addresses);
                self.addresses += 1;
                self.c.received_ice(peer, id, dev, vec![signaling::IceCandidate::from_removed_address(at).unwrap()]);
            },
            Act::RemoteHangup { peer, id, dev, hang } => self.c.received_hangup(peer, id, dev, hang.real()),
            Act::RemoteBusy { peer, id, dev } => self.c.received_busy(peer, id, dev),
            Act::IceConnected(d) => { self.calls.get_mut(&active.unwrap()).unwrap().ice_up(d); let mut k = self.conn(d).unwrap(); k.inject_ice_connected().unwrap() }
            Act::IceDisconnected(d) => { self.calls.get_mut(&active.unwrap()).unwrap().ice_now.remove(&d); let mut k = self.conn(d).unwrap(); k.inject_ice_disconnected().unwrap() }
            Act::IceFailed(d) => { self.calls.get_mut(&active.unwrap()).unwrap().ice_now.remove(&d); let mut k = self.conn(d).unwrap(); k.inject_ice_failed().unwrap() }
            Act::Gathered(d) => {
                self.gathered += 1;
                let n = self.gathered;
                let mut k = self.conn(d).unwrap();
                let id = active.unwrap();
                self.calls.get_mut(&id).unwrap().gathered.entry(d).or_default().push(format!("l{n}"));
                k.inject_local_ice_candidate(signaling::IceCandidate::from_v3_sdp(format!("l{n}")).unwrap(), d != 0, "", None).unwrap()
            }
            Act::GatheredShared(d) => {
                let mut k = self.conn(d).unwrap();
                k.inject_local_ice_candidate(signaling::IceCandidate::from_v3_sdp("shared".into()).unwrap(), false, "", None).unwrap()
            }
            Act::Media(d) => { self.calls.get_mut(&active.unwrap()).unwrap().media.insert(d); let mut k = self.conn(d).unwrap(); k.inject_received_incoming_media(MediaStream::new(webrtc::Arc::null())).unwrap() }
            Act::Route(d) => {
                let mut k = self.conn(d).unwrap();
                k.inject_ice_network_route_changed(route(true)).unwrap()
            }
            Act::RtpAccepted(d) => {
                self.rtp_in += 1;
                let id = active.unwrap();
                self.calls.get_mut(&id).unwrap().remote_accepts.insert(d);
                let mut k = self.conn(d).unwrap();
                self.c.rtp(&mut k, self.rtp_in, &rtp_data::Message { accepted: Some(rtp_data::Accepted { id: Some(id) }), ..Default::default() })
            }
            Act::RtpAcceptedOther(d) => {
                self.rtp_in += 1;
                let mut k = self.conn(d).unwrap();
                self.c.rtp(&mut k, self.rtp_in, &rtp_data::Message { accepted: Some(rtp_data::Accepted { id: Some(active.unwrap() + 1000) }), ..Default::default() })
            }
            Act::RtpHangup(d, h) => {
                self.rtp_in += 1;
                let mut k = self.conn(d).unwrap();
                self.c.rtp(&mut k, self.rtp_in, &h.rtp(active.unwrap()))
            }
            Act::RtpStatus(d) => {
                self.rtp_in += 1;
                let n = self.rtp_in;
                let mut k = self.conn(d).unwrap();
                self.c.rtp(&mut k, n, &rtp_data::Message {
                    sender_status: Some(rtp_data::SenderStatus { id: Some(active.unwrap()), video_enabled: Some(n % 2 == 0), ..Default::default() }),
                    seqnum: Some(n as u64),
                    ..Default::default()
                })
            }
            Act::Wait(s) => mc::sleep(Duration::from_secs(s)),
            Act::Fault(f) => { self.c.w.faults.lock().unwrap().insert(f); }
            Act::Repaired => self.c.w.faults.lock().unwrap().clear(),
        }
    }
    pub fn settle(&mut self) {
        mc::quiesce();
        self.last = self.c.fresh();
        // a new call lets the messages flow, somewhere in the middle of what happened
        let (started, was) = (self.last.iter().any(|e| matches!(e, Ev::Start { .. })), self.flight);
        if started { self.flight = false; }
        for e in self.last.clone() {
            self.note(&e);
        }
        if started && (was || self.flight) {
            self.flight = false;
            self.released = true;
        }
    }

    fn note(&mut self, e: &Ev) {
        if e.signaling() {
            if self.flight { self.overlap.push(e.clone()); }
            self.flight = true;
            self.released = false;
            self.order.push(e.clone());
            self.in_flight = Some((e.id().unwrap(), e.clone()));
        }
        let Some(id) = e.id() else { return };
        let t = self.calls.entry(id).or_default();
        match e {
            Ev::Start { .. } => t.starts += 1,
            Ev::Ended { reason, .. } => t.ended.push(reason.clone()),
            Ev::Concluded { .. } => t.concluded += 1,
            Ev::Offer { .. } => t.offers += 1,
            Ev::Answer { dev, .. } => { t.answers.insert(*dev); }
            Ev::Ice { dev, what, .. } => t.sent.entry(dev.unwrap_or(0)).or_default().extend(what.iter().cloned()),
            Ev::MediaConnected { dev, .. } => { t.media_connected.insert(*dev); }
            _ => {}
        }
        t.events.push(e.clone());
    }

    /// Ends what is left: the user hangs up, the application confirms every message.
    pub fn finale(&mut self) -> Result<(), String> {
        self.apply(Act::Hangup);
        let mut n = 0;
        while self.in_flight.is_some() {
            self.apply(Act::Sent);
            n += 1;
            ensure!(n < 50, "messages never stop");
        }
        // one more confirmation, as an application that lost count would give
        self.apply(Act::Sent);
        ensure!(self.in_flight.is_none(), "a message was still waiting when all had been confirmed: {:?}", self.in_flight);
        Ok(())
    }

    pub fn threads(&self) -> usize { mc::live_threads() - self.base_threads }

    /// What the outside can see of the current state.
    pub fn view(&self) -> String {
        let conns: Vec<_> = (0..=3).map(|d| {
            let last = self.active().and_then(|id| self.c.w.pc(id, d)).and_then(|p| p.last_sent_rtp_message()).map(|mut m| { m.seqnum = None; rtp_text(&m) });
            (self.conn_state(d), last)
        }).collect();
        format!("{:?} {:?} {:?} {:?} {:?} {}", self.active(), self.c.cm.busy(), self.call_state(), self.active_dev(), conns, self.threads())
    }
    /// Histories that are permutations of one another, that look the same now and that have produced
    /// the same outputs are one state.
    pub fn key(&self) -> String {
        let mut a = self.acts.clone();
        a.sort();
        let mut ev: Vec<_> = self.calls.iter().map(|(i, t)| { let mut e = t.events.clone(); e.sort(); (i, e) }).collect();
        ev.sort();
        let waiting: Vec<_> = self.calls.values().map(|t| (&t.gathered, &t.sent)).collect();
        format!("{a:?} {} {:?} {} {} {waiting:?} {ev:?} {:?}", self.view(), self.in_flight, self.flight, self.released, self.early)
    }
    pub fn close(self) {
        self.c.close();
    }
}

pub fn route(relayed: bool) -> NetworkRoute {
    NetworkRoute {
        local_adapter_type: NetworkAdapterType::Wifi,
        local_adapter_type_under_vpn: NetworkAdapterType::Unknown,
        local_relayed: relayed,
        local_relay_protocol: if relayed { TransportProtocol::Udp } else { TransportProtocol::Unknown },
        remote_relayed: false,
    }
}

/// Runs a history; `step` may look at each state and must clean up when it returns an error.
pub fn run<R>(body: impl Fn() -> Result<R, String> + Sync, cfg: &mc::Config, prefix: Vec<u16>) -> (Result<R, String>, Vec<String>)
where R: Send {
    let out: Mutex<Option<Result<R, String>>> = Mutex::new(None);
    let r = mc::run_once(cfg, prefix, &|| {
        let v = body();
        mc::set_quiet(true);
        *out.lock().unwrap() = Some(v);
    });
    if let Some(e) = r.engine_error {
        mclib::die(&format!("engine error: {e}"));
    }
    let res = match (r.error, out.into_inner().unwrap()) {
        (Some(e), _) => Err(e),
        (None, Some(v)) => v,
        (None, None) => Err("the execution ended early".into()),
    };
    (res, r.log)
}

/// A search: the inputs that can arrive in a state, the check after each input, the check at the end.
pub struct Scene<'a> {
    pub prefix: &'a [Act],
    pub enabled: &'a (dyn Fn(&Sim) -> Vec<Input> + Sync),
    pub check: &'a (dyn Fn(&mut Sim, Input) -> Result<(), String> + Sync),
    pub end: &'a (dyn Fn(&mut Sim) -> Result<(), String> + Sync),
    pub reached: &'a (dyn Fn(&Sim) -> Vec<&'static str> + Sync),
}

pub fn explore(scene: &Scene, choices: &[u16]) -> (Result<Step, String>, Vec<String>) {
    let cfg = mc::Config { bound: 0, max_steps: 200_000, ..Default::default() };
    run(
        || {
            let mut s = Sim::new();
            let r = (|| {
                for &a in scene.prefix {
                    s.apply(a);
                    (scene.check)(&mut s, (a, None))?;
                }
                let mut acts = (scene.enabled)(&s);
                for &c in choices {
                    if c as usize >= acts.len() {
                        mclib::die("replay of a known history diverged");
                    }
                    let a = acts[c as usize];
                    s.both(a);
                    (scene.check)(&mut s, a)?;
                    acts = (scene.enabled)(&s);
                }
                let step = Step { key: s.key(), arity: acts.len(), reached: (scene.reached)(&s) };
                (scene.end)(&mut s)?;
                Ok(step)
            })();
            s.close();
            r
        },
        &cfg,
        vec![],
    )
}

/// What happens when several inputs arrive at once, over all schedules within the bound: the prefix runs in the
/// default schedule, every deviation is spent while the inputs are being worked on.
pub fn race(c: &mut mclib::Check, name: &str, bound: usize, seconds: u64, prefix: &[Act], inputs: &[Act],
    check: &(dyn Fn(&mut Sim, Input) -> Result<(), String> + Sync), end: &(dyn Fn(&mut Sim) -> Result<(), String> + Sync)) {
    let cfg = mc::Config { bound, max_steps: 200_000, max_seconds: seconds, ..Default::default() };
    c.schedules(name, &cfg, &|| {
        mc::set_deviations(false);
        let mut s = Sim::new();
        for &a in prefix {
            s.apply(a);
        }
        s.raced = true;
        s.before();
        for &a in inputs {
            s.inject(a);
        }
        mc::set_deviations(true);
        s.settle();
        mc::set_deviations(false);
        let mut seen: Vec<_> = s.calls.iter().map(|(i, t)| { let mut e = t.events.clone(); e.sort(); (*i, e) }).collect();
        seen.sort();
        mc::outcome(format!("{:x}", mclib::bfs::h128(&format!("{seen:?} {}", s.view()))));
        let r = check(&mut s, (inputs[0], inputs.get(1).copied())).and_then(|_| end(&mut s));
        s.close();
        if let Err(e) = r {
            panic!("{e}");
        }
        mc::set_quiet(true);
    });
}
