//! C21: several real call managers, linked by a network that the search controls.
use std::collections::{BTreeMap, VecDeque};

use mclib::{Check, bfs::Limits, ensure, paths::Step, pick};
use mcstd::mc;
use ringrtc::{
    common::CallId,
    core::signaling,
    webrtc::{self, media::MediaStream, rtp_observer::RtpObserverTrait},
};
use std::time::Duration;

use crate::{sim::run, world::*};

/// A client: which user it belongs to, and which of the user's devices it is.
pub type At = (u8, Dev);

#[derive(Clone)]
enum Body {
    Offer(signaling::Offer),
    Answer(signaling::Answer),
    Ice(signaling::Ice),
    Hangup(signaling::Hangup),
    Busy,
}
#[derive(Clone)]
struct Msg {
    id: Id,
    body: Body,
    text: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Do {
    Call(usize, u8, Id),
    Proceed(usize),
    Accept(usize),
    Hangup(usize),
    Gather(usize),
    /// the next signaling message from one client to another
    Deliver(usize, usize),
    /// WebRTC connects the two ends of a call
    Connect(usize, usize),
    /// both ends lose it for good
    Break(usize, usize),
    /// RTP data from one client to another
    Rtp(usize, usize),
}

struct End {
    at: At,
    c: Client,
    events: BTreeMap<Id, Vec<Ev>>,
    accepted: Vec<Id>,
    rtp_seen: usize,
    ice_seen: usize,
    hangups: usize,
}

pub struct Link {
    ends: Vec<End>,
    signal: BTreeMap<(usize, usize), VecDeque<Msg>>,
    data: BTreeMap<(usize, usize), VecDeque<(Id, webrtc::rtp::Header, Vec<u8>)>>,
    up: Vec<(usize, usize, Id)>,
    broken: Vec<(usize, usize, Id)>,
    acts: Vec<Do>,
    offers: Vec<Id>,
    base: usize,
    gathered: u32,
    /// candidates: who gathered which for which call
    addresses: Vec<(usize, Id, std::net::SocketAddr)>,
}

impl Link {
    fn new(ats: &[At]) -> Link {
        let ends = ats.iter().map(|&at| End { at, c: Client::new(), events: Default::default(), accepted: vec![], rtp_seen: 0, ice_seen: 0, hangups: 0 }).collect();
        mc::quiesce();
        Link { ends, signal: Default::default(), data: Default::default(), up: vec![], broken: vec![], acts: vec![], offers: vec![], base: mc::live_threads(), gathered: 0, addresses: vec![] }
    }
    fn find(&self, user: u8, dev: Dev) -> Option<usize> { self.ends.iter().position(|e| e.at == (user, dev)) }
    fn devices(&self, user: u8) -> Vec<usize> { (0..self.ends.len()).filter(|&i| self.ends[i].at.0 == user).collect() }
    fn active(&self, i: usize) -> Option<Id> { self.ends[i].c.active() }
    fn state(&self, i: usize) -> String { self.ends[i].c.cm.active_call().ok().and_then(|c| c.state().ok()).map(|s| format!("{s:?}")).unwrap_or_default() }
    fn ended(&self, i: usize, id: Id) -> Option<String> {
        self.ends[i].events.get(&id)?.iter().find_map(|e| if let Ev::Ended { reason, .. } = e { Some(reason.clone()) } else { None })
    }
    fn told(&self, i: usize, id: Id, what: &str) -> bool {
        self.ends[i].events.get(&id).is_some_and(|v| v.iter().any(|e| matches!(e, Ev::Event { event, .. } if event == what)))
    }

    /// Everything that follows until nothing can run: what was handed out is on the network.
    fn settle(&mut self) {
        loop {
            mc::quiesce();
            let mut more = false;
            for i in 0..self.ends.len() {
                let fresh = self.ends[i].c.fresh();
                for e in fresh {
                    if let Some(id) = e.id() { self.ends[i].events.entry(id).or_default().push(e.clone()); }
                    if !e.signaling() { continue; }
                    more = true;
                    let at = self.ends[i].at;
                    let w = self.ends[i].c.w.clone();
                    let (peer, id, to, body) = match &e {
                        Ev::Offer { peer, id } => { self.offers.push(*id); (*peer, *id, None, Body::Offer(w.offers.lock().unwrap()[id].clone())) }
                        Ev::Answer { peer, id, dev } => (*peer, *id, Some(*dev), Body::Answer(w.answers.lock().unwrap()[&(*id, *dev)].clone())),
                        Ev::Ice { peer, id, dev, .. } => {
                            let n = self.ends[i].ice_seen;
                            self.ends[i].ice_seen += 1;
                            (*peer, *id, *dev, Body::Ice(w.ice.lock().unwrap()[n].2.clone()))
                        }
                        Ev::Hangup { peer, id, .. } => {
                            let n = self.ends[i].hangups;
                            self.ends[i].hangups += 1;
                            (*peer, *id, None, Body::Hangup(w.hangups.lock().unwrap()[n]))
                        }
                        Ev::Busy { peer, id } => (*peer, *id, None, Body::Busy),
                        _ => unreachable!(),
                    };
                    for j in self.devices(peer) {
                        if to.is_none_or(|d| d == self.ends[j].at.1) {
                            self.signal.entry((i, j)).or_default().push_back(Msg { id, body: body.clone(), text: format!("{e:?}") });
                        }
                    }
                    let _ = at;
                    self.ends[i].c.cm.message_sent(CallId::new(id)).unwrap();
                }
                // RTP data: to the other end of the connection it left on
                let rtp: Vec<_> = self.ends[i].c.w.rtp.lock().unwrap()[self.ends[i].rtp_seen..].to_vec();
                self.ends[i].rtp_seen += rtp.len();
                for (id, dev, header, payload) in rtp {
                    let peer = self.peer_of(i, id);
                    if let Some(j) = peer.and_then(|p| self.find(p, dev)) && self.up.contains(&(i.min(j), i.max(j), id)) {
                        self.data.entry((i, j)).or_default().push_back((id, header, payload));
                    }
                }
            }
            if !more { break; }
        }
    }
    fn peer_of(&self, i: usize, id: Id) -> Option<u8> {
        self.ends[i].events.get(&id)?.iter().find_map(|e| if let Ev::Start { peer, .. } = e { Some(*peer) } else { None })
    }
    /// The two ends of a call that WebRTC could connect.
    fn connectable(&self) -> Vec<(usize, usize, Id)> {
        let mut v = vec![];
        for i in 0..self.ends.len() {
            for j in i + 1..self.ends.len() {
                let Some(id) = self.active(i).filter(|x| self.active(j) == Some(*x)) else { continue };
                let (a, b) = (self.ends[i].c.conn(self.ends[j].at.1), self.ends[j].c.conn(self.ends[i].at.1));
                let started = |c: &ringrtc::core::connection::Connection<P>| c.state().is_ok_and(|s| !format!("{s:?}").contains("Start"));
                let far = self.ends[i].at.0 != self.ends[j].at.0;
                if let (Some(a), Some(b)) = (a, b) && far && started(&a) && started(&b) && !self.up.contains(&(i, j, id)) && !self.broken.contains(&(i, j, id)) {
                    v.push((i, j, id));
                }
            }
        }
        v
    }

    fn apply(&mut self, a: Do) {
        mc::log(format!("{a:?}"));
        self.acts.push(a);
        match a {
            Do::Call(i, peer, id) => { let d = self.ends[i].at.1; self.ends[i].c.call(peer, id, d) }
            Do::Proceed(i) => { let id = self.active(i).unwrap(); self.ends[i].c.proceed(id) }
            Do::Accept(i) => { let id = self.active(i).unwrap(); self.ends[i].accepted.push(id); self.ends[i].c.cm.accept_call(CallId::new(id)).unwrap() }
            Do::Hangup(i) => self.ends[i].c.cm.hangup().unwrap(),
            Do::Gather(i) => {
                self.gathered += 1;
                let n = self.gathered;
                let call = self.ends[i].c.cm.active_call().unwrap();
                let outgoing = format!("{:?}", call.direction()) == "Outgoing";
                drop(call);
                let dev = if outgoing { 0 } else { self.caller_dev(i) };
                let mut k = self.ends[i].c.conn(dev).unwrap();
                let address: std::net::SocketAddr = format!("10.0.0.{n}:{}", 1000 + n).parse().unwrap();
                let id = self.active(i).unwrap();
                self.addresses.push((i, id, address));
                k.inject_local_ice_candidate_removed(address, false).unwrap()
            }
            Do::Deliver(i, j) => {
                let m = self.signal.get_mut(&(i, j)).unwrap().pop_front().unwrap();
                mc::log(format!("  delivers {}", m.text));
                let (user, dev) = self.ends[i].at;
                let local = self.ends[j].at.1;
                let c = &mut self.ends[j].c;
                match m.body {
                    Body::Offer(o) => c.received_offer(user, m.id, dev, local, Duration::ZERO, o),
                    Body::Answer(a) => c.received_answer(user, m.id, dev, a),
                    Body::Ice(x) => c.received_ice(user, m.id, dev, x.candidates),
                    Body::Hangup(h) => c.received_hangup(user, m.id, dev, h),
                    Body::Busy => c.received_busy(user, m.id, dev),
                }
            }
            Do::Connect(i, j) => {
                let id = self.active(i).unwrap();
                self.up.push((i, j, id));
                for (x, y) in [(i, j), (j, i)] {
                    let mut k = self.ends[x].c.conn(self.ends[y].at.1).unwrap();
                    k.inject_received_incoming_media(MediaStream::new(webrtc::Arc::null())).unwrap();
                    k.inject_ice_connected().unwrap();
                }
            }
            Do::Break(i, j) => {
                let id = self.active(i).unwrap();
                self.up.retain(|x| *x != (i, j, id));
                self.broken.push((i, j, id));
                for (x, y) in [(i, j), (j, i)] {
                    if let Some(mut k) = self.ends[x].c.conn(self.ends[y].at.1) { k.inject_ice_failed().unwrap(); }
                }
            }
            Do::Rtp(i, j) => {
                let (id, header, payload) = self.data.get_mut(&(i, j)).unwrap().pop_front().unwrap();
                if self.active(j) == Some(id) && let Some(mut k) = self.ends[j].c.conn(self.ends[i].at.1) {
                    k.handle_rtp_received(header, &payload);
                }
            }
        }
        self.settle();
    }
    /// the device that calls, for an incoming call
    fn caller_dev(&self, i: usize) -> Dev {
        (1..=3).find(|d| self.ends[i].c.conn(*d).is_some()).unwrap_or(1)
    }

    /// What the network and WebRTC can do now.
    fn pending(&self) -> Vec<Do> {
        let mut v = vec![];
        for (&(i, j), q) in &self.signal { if !q.is_empty() { v.push(Do::Deliver(i, j)); } }
        for (&(i, j), q) in &self.data { if !q.is_empty() { v.push(Do::Rtp(i, j)); } }
        for (i, j, _) in self.connectable() { v.push(Do::Connect(i, j)); }
        for i in 0..self.ends.len() { if self.state(i) == "WaitingToProceed" { v.push(Do::Proceed(i)); } }
        v
    }
    fn view(&self) -> String {
        let ends: Vec<_> = self.ends.iter().enumerate().map(|(i, e)| {
            let conns: Vec<_> = (1..=3).map(|d| e.c.conn(d).and_then(|c| c.state().ok()).map(|s| format!("{s:?}"))).collect();
            format!("{:?} {} {:?} {:?}", self.active(i), self.state(i), e.c.cm.active_call().ok().and_then(|c| c.active_device_id().ok()), conns)
        }).collect();
        let net: Vec<_> = self.signal.iter().map(|(k, q)| (k, q.iter().map(|m| &m.text).collect::<Vec<_>>())).collect();
        let data: Vec<_> = self.data.iter().map(|(k, q)| (k, q.iter().map(|m| (m.0, &m.2)).collect::<Vec<_>>())).collect();
        format!("{ends:?} {net:?} {data:?} {:?} {:?}", self.up, self.broken)
    }
    fn key(&self) -> String {
        let mut a = self.acts.clone();
        a.sort();
        let ev: Vec<_> = self.ends.iter().map(|e| e.events.iter().map(|(i, v)| { let mut v = v.clone(); v.sort(); (*i, v) }).collect::<Vec<_>>()).collect();
        format!("{a:?} {} {ev:?}", self.view())
    }
    /// The network delivers everything, and everything that follows from it.
    fn finish(&mut self) -> Result<(), String> {
        let mut n = 0;
        while let Some(a) = self.pending().first().copied() {
            self.apply(a);
            self.always()?;
            n += 1;
            ensure!(n < 300, "messages never stop");
        }
        Ok(())
    }

    fn always(&self) -> Result<(), String> {
        self.candidates(false)?;
        // a call is accepted by one device at most
        for id in self.ids() {
            let takers: Vec<_> = (0..self.ends.len()).filter(|&i| self.active(i) == Some(id) && self.told(i, id, "LocalAccepted")).collect();
            let callers: Vec<_> = (0..self.ends.len()).filter(|&i| self.told(i, id, "RemoteAccepted")).collect();
            for &i in &callers {
                let dev = self.ends[i].events[&id].iter().find_map(|e| if let Ev::MediaConnected { dev, .. } = e { Some(*dev) } else { None });
                let j = self.peer_of(i, id).and_then(|p| dev.and_then(|d| self.find(p, d)));
                ensure!(j.is_some_and(|j| self.ends[j].accepted.contains(&id)), "client {i} thinks that call {id} was accepted by {j:?}");
            }
            let _ = takers;
        }
        for (i, e) in self.ends.iter().enumerate() {
            for (id, v) in &e.events {
                let n = v.iter().filter(|e| matches!(e, Ev::Ended { .. })).count();
                ensure!(n <= 1, "call {id} ended {n} times on client {i}");
                // what a client believes about the other end
                let (me, other) = (self.ends[i].at.0, v.iter().find_map(|e| if let Ev::Ended { reason, .. } = e { Some(reason.clone()) } else { None }));
                if let Some(reason) = other {
                    let of = |user_differs: bool, pred: &dyn Fn(usize) -> bool| (0..self.ends.len()).any(|j| (self.ends[j].at.0 != me) == user_differs && pred(j));
                    let hung = |j: usize| self.acts.contains(&Do::Hangup(j));
                    match reason.as_str() {
                        "RemoteHangup" => ensure!(of(true, &hung) || of(true, &|j| self.ended(j, *id).is_some()), "client {i}: RemoteHangup, and nobody hung up"),
                        "RemoteHangupAccepted" => ensure!(of(false, &|j| j != i && self.ends[j].accepted.contains(id)), "client {i}: call {id} was accepted on no other device"),
                        "RemoteHangupDeclined" => ensure!(of(false, &|j| j != i && hung(j)), "client {i}: call {id} was declined on no other device"),
                        "RemoteBusy" => ensure!(of(true, &|j| self.ends[j].events.get(id).is_some_and(|v| v.iter().any(|e| matches!(e, Ev::Busy { .. })))), "client {i}: busy, but nobody is"),
                        "LocalHangup" => ensure!(hung(i), "client {i}: LocalHangup without one"),
                        _ => {}
                    }
                }
            }
        }
        Ok(())
    }
    fn ids(&self) -> Vec<Id> {
        let mut v: Vec<Id> = self.ends.iter().flat_map(|e| e.events.keys().copied()).collect();
        v.sort();
        v.dedup();
        v
    }

    /// Candidates arrive once and in order, and only where they belong.
    fn candidates(&self, all: bool) -> Result<(), String> {
        for i in 0..self.ends.len() {
            for j in 0..self.ends.len() {
                for id in self.ids() {
                    let Some(pc) = self.ends[i].c.w.pc(id, self.ends[j].at.1).filter(|_| self.ends[i].at.0 != self.ends[j].at.0) else { continue };
                    let got = pc.removed_ice_candidates();
                    let sent: Vec<_> = self.addresses.iter().filter(|(x, c, _)| *x == j && *c == id).map(|a| a.2).collect();
                    ensure!(sent.starts_with(&got), "client {j} gathered {sent:?} for call {id}, and client {i} got {got:?}");
                    let live = |x: usize| self.active(x) == Some(id);
                    if all && live(i) && live(j) {
                        ensure!(sent == got, "client {j} gathered {sent:?} for call {id}, and when everything had arrived, client {i} had {got:?}");
                    }
                }
            }
        }
        Ok(())
    }
    fn nobody(&self, id: Id) -> bool {
        (0..self.ends.len()).any(|j| self.told(j, id, "ReceivedOfferWithGlare")
            && self.ends[j].events.iter().any(|(&x, v)| x > id && v.iter().any(|e| matches!(e, Ev::Start { outgoing: true, .. })) && (!self.offers.contains(&x) || self.nobody(x))))
    }
    /// When everything has been delivered, both sides are in the same call, or in none.
    fn agree(&self, what: &str) -> Result<(), String> {
        self.candidates(true)?;
        for id in self.ids() {
            let inn: Vec<usize> = (0..self.ends.len()).filter(|&i| self.active(i) == Some(id)).collect();
            let users: Vec<u8> = inn.iter().map(|&i| self.ends[i].at.0).collect();
            let both = (1..=3).filter(|u| users.contains(u)).count() == 2;
            // the other end ignored the offer in favour of its own call, and then gave that up before it was offered:
            // nobody is going to answer, as when nobody is there
            let nobody = inn.len() == 1 && self.state(inn[0]) == "ConnectingBeforeAccepted" && self.nobody(id);
            ensure!(inn.is_empty() || nobody || both,
                "{what}: everything has been delivered, and of all clients only {inn:?} are in call {id}: {:?}",
                (0..self.ends.len()).map(|i| (self.active(i), self.state(i), self.ended(i, id))).collect::<Vec<_>>());
            let done: Vec<bool> = inn.iter().map(|&i| self.state(i) == "ConnectedAndAccepted").collect();
            ensure!(done.iter().all(|d| *d) && inn.len() <= 2 || done.iter().all(|d| !*d), "{what}: call {id} is accepted on some of {inn:?} only: {done:?}");
        }
        Ok(())
    }
    fn end(&mut self, two: bool) -> Result<(), String> {
        let before_hung = self.acts.iter().any(|a| matches!(a, Do::Hangup(_) | Do::Break(..)));
        self.finish()?;
        self.agree("undisturbed")?;
        if two && !before_hung && !self.offers.is_empty() {
            let max = *self.offers.iter().max().unwrap();
            let equal = self.ends.iter().filter(|e| e.events.get(&max).is_some_and(|v| v.iter().any(|e| matches!(e, Ev::Start { outgoing: true, .. })))).count() == 2;
            let expect = if equal { None } else { Some(max) };
            for i in 0..2 {
                ensure!(self.active(i) == expect, "both called and nobody hung up; calls {:?} were offered, and client {i} is in {:?}, not in {expect:?}", self.offers, self.active(i));
            }
        }
        // the first that rings accepts

        if let Some(i) = (0..self.ends.len()).find(|&i| self.told(i, self.active(i).unwrap_or(0), "LocalRinging") && !self.ends[i].accepted.contains(&self.active(i).unwrap())) {
            let id = self.active(i).unwrap();
            if !(0..self.ends.len()).any(|j| self.ends[j].accepted.contains(&id)) {
                self.apply(Do::Accept(i));
                self.finish()?;
                self.agree("accepted at last")?;
                let inn: Vec<usize> = (0..self.ends.len()).filter(|&j| self.active(j) == Some(id)).collect();
                ensure!(inn.len() == 2 && inn.contains(&i), "client {i} accepted call {id}, and {inn:?} are in it");
                for j in (0..self.ends.len()).filter(|j| *j != i) {
                    if !inn.contains(&j) && self.ends[j].events.get(&id).is_some_and(|v| v.iter().any(|e| matches!(e, Ev::Start { .. }))) {
                        ensure!(self.ended(j, id).is_some(), "call {id} was accepted, and client {j} was not told");
                    }
                }
            }
        }
        for i in 0..self.ends.len() {
            if let Some(x) = self.active(i) {
                self.apply(Do::Hangup(i));
                self.finish()?;
                self.agree("hung up")?;
                ensure!((0..self.ends.len()).all(|j| self.active(j) != Some(x)), "client {i} hung up call {x}, but it goes on elsewhere: {:?}", (0..self.ends.len()).map(|j| self.active(j)).collect::<Vec<_>>());
            }
        }
        for (i, e) in self.ends.iter().enumerate() {
            for (id, v) in &e.events {
                let n = v.iter().filter(|e| matches!(e, Ev::Concluded { .. })).count();
                // (a call may have been made and offered here with the same id)
                let calls = if v.iter().any(|e| matches!(e, Ev::Event { event, .. } if event == "GlareHandlingFailure")) { 2 } else { 1 };
                ensure!(n == calls, "call {id} on client {i} was not concluded");
            }
        }
        ensure!(mc::live_threads() == self.base, "{} threads are left", mc::live_threads() - self.base);
        Ok(())
    }
    fn close(self) {
        for e in self.ends { e.c.close(); }
    }
}

struct Plan<'a> {
    ats: &'a [At],
    prefix: &'a [Do],
    enabled: &'a (dyn Fn(&Link) -> Vec<Do> + Sync),
}

fn explore(p: &Plan, choices: &[u16]) -> (Result<Step, String>, Vec<String>) {
    let cfg = mc::Config { bound: 0, max_steps: 400_000, ..Default::default() };
    run(|| {
        let mut l = Link::new(p.ats);
        let r = (|| {
            for &a in p.prefix { l.apply(a); l.always()?; }
            let mut acts = (p.enabled)(&l);
            for &c in choices {
                if c as usize >= acts.len() { mclib::die("replay of a known history diverged"); }
                l.apply(acts[c as usize]);
                l.always()?;
                acts = (p.enabled)(&l);
            }
            let mut reached = vec![];
            for i in 0..l.ends.len() {
                for id in l.ids() {
                    match l.ended(i, id).as_deref() { Some("RemoteGlare") => reached.push("glare lost"), Some("RemoteBusy") => reached.push("busy"), Some("RemoteHangupAccepted") => reached.push("accepted elsewhere"), Some("RemoteHangupDeclined") => reached.push("declined elsewhere"), Some("RemoteReCall") => reached.push("called again"), _ => {} }
                    if l.told(i, id, "RemoteAccepted") { reached.push("accepted"); }
                    if l.told(i, id, "ReceivedOfferWithGlare") { reached.push("glare won"); }
                }
            }
            let step = Step { key: l.key(), arity: acts.len(), reached };
            l.end(p.ats.len() == 2)?;
            Ok(step)
        })();
        l.close();
        r
    }, &cfg, vec![])
}

/// Each user can call once, accept what rings and hang up once.
fn users(l: &Link, calls: &[(usize, u8, Id)], hang: bool, gather: u32) -> Vec<Do> {
    let mut v = l.pending();
    if l.gathered < gather {
        for i in 0..l.ends.len() {
            let Some(id) = l.active(i) else { continue };
            let outgoing = l.ends[i].events[&id].iter().any(|e| matches!(e, Ev::Start { outgoing: true, .. }));
            if l.state(i) != "WaitingToProceed" && (0..=3).any(|d| (d == 0) == outgoing && l.ends[i].c.conn(d).is_some()) { v.push(Do::Gather(i)); }
        }
    }
    for &(i, peer, id) in calls {
        if l.active(i).is_none() && !l.acts.contains(&Do::Call(i, peer, id)) { v.push(Do::Call(i, peer, id)); }
    }
    for i in 0..l.ends.len() {
        let Some(id) = l.active(i) else { continue };
        if l.told(i, id, "LocalRinging") && !l.ends[i].accepted.contains(&id) { v.push(Do::Accept(i)); }
        if hang && !l.acts.contains(&Do::Hangup(i)) { v.push(Do::Hangup(i)); }
    }
    v
}

pub fn c21() {
    let mut c = Check::new("C21", "model_checking");
    let two: &[At] = &[(1, 1), (2, 1)];
    let three: &[At] = &[(1, 1), (2, 1), (2, 2)];
    let go = |c: &mut Check, name: &str, ats: &[At], calls: &[(usize, u8, Id)], prefix: &[Do], hang: bool, gather: u32, q: usize, t: usize| {
        let p = Plan { ats, prefix, enabled: &|l| users(l, calls, hang, gather) };
        let mut l = Limits::depth(pick(q, t));
        l.max_seconds = pick(40.0, 200.0);
        let st = c.paths(name, l, &|ch| explore(&p, ch));
        eprintln!("   {:?} {:?}", st.levels, st.covered);
    };
    go(&mut c, "two clients call one another", two, &[(0, 2, 100), (1, 1, 200)], &[], false, 2, 16, 18);
    go(&mut c, "two clients call one another with the same id", two, &[(0, 2, 100), (1, 1, 100)], &[], false, 2, 16, 18);
    go(&mut c, "two clients call one another and hang up", two, &[(0, 2, 100), (1, 1, 200)], &[], true, 2, 12, 16);
    go(&mut c, "two clients call one another twice and hang up", two, &[(0, 2, 100), (1, 1, 200), (0, 2, 300), (1, 1, 50)], &[], true, 0, 10, 13);
    go(&mut c, "a called device calls back", three, &[(0, 2, 100), (1, 1, 200)], &[], true, 0, 12, 16);
    go(&mut c, "a called device calls back with a lower id", three, &[(0, 2, 100), (1, 1, 50)], &[], true, 0, 12, 16);
    let others: &[At] = &[(1, 1), (2, 1), (3, 1)];
    go(&mut c, "two devices of a user call another", three, &[(1, 1, 100), (2, 1, 200)], &[], true, 0, 10, 14);
    go(&mut c, "three users call in a circle", others, &[(0, 2, 100), (1, 3, 200), (2, 1, 300)], &[], true, 0, 8, 12);
    go(&mut c, "somebody calls who is in a call", others, &[(2, 1, 300)], &[Do::Call(0, 2, 100), Do::Proceed(0), Do::Deliver(0, 1), Do::Proceed(1), Do::Deliver(1, 0), Do::Connect(0, 1)], true, 0, 10, 14);
    go(&mut c, "two devices are called", three, &[(0, 2, 100)], &[Do::Call(0, 2, 100), Do::Proceed(0)], true, 2, 11, 15);
    go(&mut c, "two devices ring", three, &[(0, 2, 100)], &[Do::Call(0, 2, 100), Do::Proceed(0), Do::Deliver(0, 1), Do::Deliver(0, 2), Do::Proceed(1), Do::Proceed(2), Do::Deliver(1, 0), Do::Deliver(2, 0), Do::Connect(0, 1), Do::Connect(0, 2)], true, 1, 9, 13);
    c.finish()
}
