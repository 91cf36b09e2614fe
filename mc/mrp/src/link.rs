use std::{collections::BTreeSet, fmt::Write as _};

use mclib::{Check, bfs, ensure, pick};
use mcstd::time::{Duration, Instant};
use mrp::{MrpHeader, MrpReceiveError, MrpSendError, MrpStream, PacketWrapper};

pub type Pkt = PacketWrapper<u32>;

pub fn base() -> Instant {
    // the virtual clock is never advanced here, so this is a constant
    Instant::now()
}
pub fn at(t: u64) -> Instant {
    base() + Duration::from_secs(t)
}

/// What the documentation says about one endpoint, kept next to the real one.
#[derive(Clone, Debug, Default)]
struct Model {
    /// sent, not yet acknowledged: (seqnum, payload, due time)
    unacked: Vec<(u64, u32, u64)>,
    next_seq: u64,
    /// seqnums received so far
    got: BTreeSet<u64>,
    /// seqnums 1..=contig have all been received (and so delivered)
    contig: u64,
    /// an acknowledgement has to be offered
    must_ack: bool,
    /// an acknowledgement may be offered (something in order or old arrived since the last one)
    may_ack: bool,
}

struct End {
    s: MrpStream<Pkt, Pkt>,
    m: Model,
    inbox: Vec<u32>,
    /// so much of the inbox has been compared
    checked: usize,
}

impl End {
    fn new(w: usize) -> End {
        let s = if w == usize::MAX { MrpStream::default() } else { MrpStream::with_capacity_limit(w) };
        End { s, m: Model { next_seq: 1, ..Default::default() }, inbox: vec![], checked: 0 }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub window: usize,
    /// messages A sends to B, and B to A
    pub msgs: [u32; 2],
    /// packets in flight per direction
    pub net: usize,
    pub resends: u32,
    /// injected hostile packets and failing callbacks
    pub hostile: bool,
    /// check eventual delivery in every state (C01) or the exact per-call rules (C02)
    pub liveness: bool,
}

pub struct Link {
    c: Cfg,
    e: [End; 2],
    /// net[i]: packets on their way to endpoint i
    net: [Vec<Pkt>; 2],
    sent: [u32; 2],
    resends: [u32; 2],
    acts: Vec<Act>,
    seen: BTreeSet<&'static str>,
}

#[derive(Clone, Debug)]
enum Act {
    Send(usize, u64),
    SendFails(usize),
    SendFull(usize),
    Deliver(usize, usize, bool),
    Drop(usize, usize),
    Ack(usize),
    AckFails(usize),
    Resend(usize, u64),
    ResendFails(usize, u64, usize),
    Inject(usize, Inj),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Inj {
    StaleAck,
    ImpossibleAck,
    HugeAck,
    PastWindow,
    FarPastWindow,
    SeqZero,
    NoHeader,
}

fn payload(end: usize, k: u32) -> u32 {
    (end as u32 + 1) * 1_000_000 + k
}

impl Link {
    pub fn new(c: Cfg) -> Link {
        Link {
            c,
            e: [End::new(c.window), End::new(c.window)],
            net: [vec![], vec![]],
            sent: [0; 2],
            resends: [0; 2],
            acts: vec![],
            seen: BTreeSet::new(),
        }
    }
    fn list(&self) -> Vec<Act> {
        let mut v = vec![];
        for i in 0..2 {
            let m = &self.e[i].m;
            let full = m.unacked.len() == self.c.window;
            if self.sent[i] < self.c.msgs[i] {
                if full {
                    v.push(Act::SendFull(i));
                } else if self.net[1 - i].len() < self.c.net {
                    v.push(Act::Send(i, 1));
                    v.push(Act::Send(i, 2));
                    if self.c.hostile {
                        v.push(Act::SendFails(i));
                    }
                }
            }
            for k in 0..self.net[i].len() {
                if k > 0 && self.net[i][k] == self.net[i][k - 1] {
                    continue; // identical packets
                }
                v.push(Act::Deliver(i, k, false));
                v.push(Act::Deliver(i, k, true));
                v.push(Act::Drop(i, k));
            }
            if m.may_ack && self.net[1 - i].len() < self.c.net {
                v.push(Act::Ack(i));
                if self.c.hostile {
                    v.push(Act::AckFails(i));
                }
            }
            if !m.may_ack {
                v.push(Act::AckFails(i)); // must not be called
            }
            if !m.unacked.is_empty() {
                v.push(Act::Resend(i, 0)); // nothing is due: must not transmit
                for now in [1, 2] {
                    let due = m.unacked.iter().filter(|p| p.2 <= now).count();
                    if due > 0 && self.resends[i] < self.c.resends && self.net[1 - i].len() + due <= self.c.net {
                        v.push(Act::Resend(i, now));
                        if self.c.hostile {
                            for j in 0..due {
                                v.push(Act::ResendFails(i, now, j));
                            }
                        }
                    }
                }
            }
            if self.c.hostile {
                use Inj::*;
                for j in [StaleAck, ImpossibleAck, HugeAck, PastWindow, FarPastWindow, SeqZero, NoHeader] {
                    v.push(Act::Inject(i, j));
                }
            }
        }
        v
    }
    fn post(&mut self, to: usize, p: Pkt) {
        self.net[to].push(p);
        self.net[to].sort_by_key(|p| (p.0.seqnum, p.0.ack_num, p.1));
    }

    /// Hands a packet to endpoint i and compares with the model.
    fn receive(&mut self, i: usize, p: Pkt) -> Result<(), String> {
        let w = self.c.window as u64;
        let h = p.0.clone();
        let e = &mut self.e[i];
        let left = e.m.contig + 1;
        let r = e.s.receive(&h, p.clone());
        if let Some(ack) = h.ack_num {
            ensure!(r.as_ref().is_ok_and(|v| v.is_empty()), "an acknowledgement produced {r:?}");
            if ack <= e.m.next_seq {
                let before = e.m.unacked.len();
                e.m.unacked.retain(|u| u.0 >= ack);
                if e.m.unacked.len() < before {
                    self.seen.insert("acknowledged");
                }
            } else {
                self.seen.insert("impossible_ack");
            }
        } else if let Some(seq) = h.seqnum {
            if seq < left {
                ensure!(r.as_ref().is_ok_and(|v| v.is_empty()), "an old packet ({seq}) produced {r:?}");
                e.m.must_ack = true;
                e.m.may_ack = true;
                self.seen.insert("old_duplicate");
            } else if seq > left.saturating_add(w - 1) {
                ensure!(
                    r == Err(MrpReceiveError::ReceiveWindowFull(seq)),
                    "a packet past the receive window ({seq}, window {left}+{w}) produced {r:?}"
                );
                self.seen.insert("past_window");
            } else {
                e.m.got.insert(seq);
                let mut expect = vec![];
                while e.m.got.contains(&(e.m.contig + 1)) {
                    e.m.contig += 1;
                    expect.push(payload(1 - i, e.m.contig as u32));
                }
                if expect.len() > 1 {
                    self.seen.insert("gap_filled");
                }
                if expect.is_empty() {
                    self.seen.insert("buffered_out_of_order");
                } else {
                    e.m.must_ack = true;
                    e.m.may_ack = true;
                }
                let got: Result<Vec<u32>, _> = r.map(|v| v.into_iter().map(|p| p.1).collect());
                ensure!(got == Ok(expect.clone()), "receiving seqnum {seq} released {got:?}, expected {expect:?}");
                e.inbox.extend(expect);
            }
        } else {
            ensure!(r == Ok(vec![p.clone()]), "a packet without an MRP header must be passed through, got {r:?}");
        }
        self.sizes(i)
    }
    fn sizes(&mut self, i: usize) -> Result<(), String> {
        let e = &mut self.e[i];
        ensure!(e.s.send_len() == e.m.unacked.len(), "send window holds {} packets, {} are unacknowledged", e.s.send_len(), e.m.unacked.len());
        ensure!(e.s.receive_len() <= self.c.window, "receive buffer holds {} of {}", e.s.receive_len(), self.c.window);
        ensure!(
            e.s.ack_seqnum() == e.m.contig + 1,
            "would acknowledge up to {}, but only 1..={} arrived contiguously", e.s.ack_seqnum(), e.m.contig
        );
        // exactly once, in order: the inbox is a prefix of what the peer sent
        for k in e.checked..e.inbox.len() {
            ensure!(e.inbox[k] == payload(1 - i, k as u32 + 1), "delivered {:?}", e.inbox);
        }
        e.checked = e.inbox.len();
        ensure!(e.inbox.len() as u32 <= self.sent[1 - i], "delivered more than was sent");
        Ok(())
    }
    /// One call of try_resend; fail_at: the callback fails for the n-th packet.
    fn resend(&mut self, i: usize, now: u64, fail_at: Option<usize>, new_due: u64) -> Result<(), String> {
        let mut out: Vec<Pkt> = vec![];
        let mut calls = 0;
        let r = self.e[i].s.try_resend(at(now), |p| {
            calls += 1;
            if Some(calls - 1) == fail_at {
                return Err(anyhow::anyhow!("no"));
            }
            out.push(p.clone());
            Ok(at(new_due))
        });
        let m = &self.e[i].m;
        let due: Vec<(u64, u32)> = m.unacked.iter().filter(|p| p.2 <= now).map(|p| (p.0, p.1)).collect();
        let sent: Vec<(u64, u32)> = out.iter().map(|p| (p.0.seqnum.unwrap_or(0), p.1)).collect();
        match fail_at {
            None => {
                ensure!(r.is_ok(), "try_resend failed: {r:?}");
                let mut sorted = sent.clone();
                sorted.sort();
                ensure!(sorted == due, "at time {now} retransmitted {sent:?}, due were {due:?}");
            }
            Some(_) => {
                ensure!(matches!(r, Err(MrpSendError::InnerSendFailed(_))), "a failing callback gave {r:?}");
                ensure!(sent.iter().all(|s| due.contains(s)), "retransmitted {sent:?}, due were {due:?}");
            }
        }
        for p in out {
            ensure!(
                p.0 == MrpHeader::new(p.0.seqnum, None),
                "a retransmitted packet changed its header: {:?}", p.0
            );
            for u in self.e[i].m.unacked.iter_mut().filter(|u| Some(u.0) == p.0.seqnum) {
                u.2 = new_due;
            }
            self.post(1 - i, p);
        }
        self.sizes(i)
    }
    fn send(&mut self, i: usize, due: u64) -> Result<(), String> {
        let k = self.sent[i] + 1;
        let mut out = None;
        let r = self.e[i].s.try_send(|h| {
            let p = PacketWrapper(h, payload(i, k));
            out = Some(p.clone());
            Ok((p, at(due)))
        });
        let full = self.e[i].m.unacked.len() == self.c.window;
        if full {
            ensure!(matches!(r, Err(MrpSendError::SendWindowFull)), "send with a full window gave {r:?}");
            ensure!(out.is_none(), "a packet was transmitted with a full window");
            self.seen.insert("window_full");
            return self.sizes(i);
        }
        ensure!(r.is_ok(), "send with room in the window gave {r:?}");
        let p = out.ok_or("the packet was not handed to the transport")?;
        let m = &mut self.e[i].m;
        ensure!(
            p.0 == MrpHeader::new(Some(m.next_seq), None),
            "message {k} got header {:?}, expected seqnum {}", p.0, m.next_seq
        );
        m.unacked.push((m.next_seq, payload(i, k), due));
        m.next_seq += 1;
        self.sent[i] = k;
        self.post(1 - i, p);
        self.sizes(i)
    }
    fn ack(&mut self, i: usize) -> Result<(), String> {
        let mut out = vec![];
        let r = self.e[i].s.try_send_ack(|h| {
            out.push(h);
            Ok(())
        });
        let m = &mut self.e[i].m;
        let expect = m.contig + 1;
        ensure!(out.len() <= 1, "several acknowledgements in one call: {out:?}");
        match r {
            Ok(None) => {
                ensure!(out.is_empty() && !m.must_ack, "no acknowledgement sent though one is owed (1..={} arrived)", m.contig);
            }
            Ok(Some(n)) => {
                ensure!(m.may_ack, "acknowledgement without anything received since the last one");
                ensure!(
                    n == expect && out == vec![MrpHeader::new(None, Some(expect))],
                    "acknowledged {n} / {out:?}, expected {expect}"
                );
                self.post(1 - i, PacketWrapper(out.pop().unwrap(), 0));
            }
            Err(e) => return Err(format!("try_send_ack failed: {e:?}")),
        }
        let m = &mut self.e[i].m;
        m.must_ack = false;
        m.may_ack = false;
        self.sizes(i)
    }
}

impl bfs::System for Link {
    fn actions(&mut self) -> usize {
        self.acts = self.list();
        self.acts.len()
    }
    fn describe(&mut self, i: usize) -> String {
        match &self.acts[i] {
            Act::Deliver(e, k, keep) => format!("Deliver to {e} {:?} {}", self.net[*e][*k], if *keep { "(a copy stays in flight)" } else { "" }),
            Act::Drop(e, k) => format!("Lose {:?} on its way to {e}", self.net[*e][*k]),
            a => format!("{a:?}"),
        }
    }
    fn apply(&mut self, i: usize) -> Result<(), String> {
        match self.acts[i].clone() {
            Act::Send(i, due) => self.send(i, due),
            Act::SendFull(i) => self.send(i, 1),
            Act::SendFails(i) => {
                let r = self.e[i].s.try_send(|_| Err(anyhow::anyhow!("no")));
                ensure!(matches!(r, Err(MrpSendError::InnerSendFailed(_))), "a failing send callback gave {r:?}");
                self.sizes(i)
            }
            Act::Deliver(e, k, keep) => {
                let p = if keep { self.net[e][k].clone() } else { self.net[e].remove(k) };
                self.receive(e, p)
            }
            Act::Drop(e, k) => {
                self.net[e].remove(k);
                Ok(())
            }
            Act::Ack(i) => self.ack(i),
            Act::AckFails(i) => {
                let mut calls = 0;
                let r = self.e[i].s.try_send_ack(|_| {
                    calls += 1;
                    Err(anyhow::anyhow!("no"))
                });
                let m = &self.e[i].m;
                if calls == 0 {
                    ensure!(matches!(r, Ok(None)) && !m.must_ack, "owed acknowledgement not offered: {r:?}");
                } else {
                    ensure!(m.may_ack, "acknowledgement without anything received since the last one");
                    ensure!(calls == 1 && matches!(r, Err(MrpSendError::InnerSendFailed(_))), "failing ack callback gave {r:?}");
                }
                self.sizes(i)
            }
            Act::Resend(i, now) => {
                if now > 0 {
                    self.resends[i] += 1;
                }
                self.resend(i, now, None, 2)
            }
            Act::ResendFails(i, now, j) => {
                self.resends[i] += 1;
                self.resend(i, now, Some(j), 2)
            }
            Act::Inject(i, j) => {
                let m = &self.e[i].m;
                let (left, w) = (m.contig + 1, self.c.window as u64);
                let h = match j {
                    Inj::StaleAck => MrpHeader::new(None, Some(m.unacked.first().map_or(m.next_seq, |u| u.0) - 1)),
                    Inj::ImpossibleAck => MrpHeader::new(None, Some(m.next_seq + 1)),
                    Inj::HugeAck => MrpHeader::new(None, Some(u64::MAX)),
                    Inj::PastWindow => MrpHeader::new(Some(left + w), None),
                    Inj::FarPastWindow => MrpHeader::new(Some(u64::MAX), None),
                    Inj::SeqZero => MrpHeader::new(Some(0), None),
                    Inj::NoHeader => MrpHeader::new(None, None),
                };
                self.receive(i, PacketWrapper(h, 7))
            }
        }
    }
    fn key(&self) -> String {
        let mut k = String::new();
        for i in 0..2 {
            write!(k, "{:?}|{:?}|{:?}|{}|{}|", self.e[i].s, self.e[i].m, self.net[i], self.sent[i], self.resends[i]).unwrap();
        }
        k
    }
    fn has_state_check() -> bool {
        true
    }
    /// From every reachable state: a network that stops losing packets delivers everything.
    fn check_state(mut self) -> Result<(), String> {
        if !self.c.liveness {
            return Ok(());
        }
        let total = self.c.msgs;
        let mut rounds = 0;
        self.c.net = usize::MAX;
        loop {
            for i in 0..2 {
                while self.sent[i] < total[i] && self.e[i].m.unacked.len() < self.c.window {
                    self.send(i, 2)?;
                }
                self.resend(i, 2, None, 2)?;
            }
            for i in 0..2 {
                while let Some(p) = self.net[i].pop() {
                    // packets in flight arrive newest first
                    self.receive(i, p)?;
                }
            }
            for i in 0..2 {
                self.ack(i)?;
                while let Some(p) = self.net[1 - i].pop() {
                    self.receive(1 - i, p)?;
                }
            }
            if (0..2).all(|i| self.e[i].inbox.len() as u32 == total[1 - i] && self.e[i].s.send_len() == 0) {
                return Ok(());
            }
            rounds += 1;
            ensure!(
                rounds < 64,
                "with a lossless network {:?} of {total:?} messages are ever delivered, {} / {} remain unacknowledged",
                [self.e[1].inbox.len(), self.e[0].inbox.len()], self.e[0].s.send_len(), self.e[1].s.send_len()
            );
        }
    }
    fn reached(&self) -> Vec<&'static str> {
        self.seen.iter().copied().collect()
    }
}

/// Everything is lost `k` times in a row, then nothing is lost: long outages.
fn outage(window: usize, msgs: u32, k: u64, lose_acks: bool) -> Result<bool, String> {
    let mut l = Link::new(Cfg { window, msgs: [msgs, 0], net: usize::MAX, resends: u32::MAX, hostile: false, liveness: true });
    for _ in 0..msgs.min(window as u32) {
        l.send(0, 1)?;
    }
    for _ in 0..k {
        if lose_acks {
            while let Some(p) = l.net[1].pop() {
                l.receive(1, p)?;
            }
            l.ack(1)?;
            l.net[0].clear();
        } else {
            l.net[1].clear();
        }
        l.resend(0, 2, None, 2)?;
        let n = l.net[1].len();
        ensure!(n == msgs.min(window as u32) as usize, "only {n} packets were retransmitted");
    }
    bfs::System::check_state(l)?;
    Ok(true)
}

const BIG: [usize; 12] = [15, 16, 17, 31, 32, 33, 64, 65, 255, 256, 257, usize::MAX];

/// A full window of which the packets i and j are lost, and every acknowledgement until the rest is
/// through; the rest arrives in order or backwards.
fn two_lost(window: usize, i: usize, j: usize, backwards: bool) -> Result<bool, String> {
    let n = window.min(300);
    let mut l = Link::new(Cfg { window, msgs: [n as u32 + 3, 0], net: usize::MAX, resends: u32::MAX, hostile: false, liveness: true });
    for _ in 0..n {
        l.send(0, 1)?;
    }
    if window == n {
        l.send(0, 1)?; // no room
    }
    for k in 0..n {
        let k = if backwards { n - 1 - k } else { k };
        if k != i && k != j {
            let p = l.net[1][k].clone();
            l.receive(1, p)?;
        }
    }
    l.net[1].clear();
    if (i + j) % 2 == 0 {
        l.ack(1)?;
        l.net[0].clear();
    }
    bfs::System::check_state(l)?;
    Ok(i != j)
}
fn pairs(n: usize) -> Vec<(usize, usize)> {
    let all: Vec<usize> = if n <= 33 { (0..n).collect() } else { [0, 1, 2, 14, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, n / 2, n - 2, n - 1].into_iter().filter(|k| *k < n).collect() };
    all.iter().flat_map(|i| all.iter().filter(move |j| *j >= i).map(move |j| (*i, *j))).collect()
}

/// A long history in which every `period`-th packet and every `period`-th acknowledgement is lost.
fn long(window: usize, msgs: u32, period: u32) -> Result<bool, String> {
    let mut l = Link::new(Cfg { window, msgs: [msgs, 0], net: usize::MAX, resends: u32::MAX, hostile: false, liveness: true });
    let mut k = 0;
    let mut lost = || {
        k += 1;
        k % period == 0
    };
    while l.e[1].inbox.len() < msgs as usize || l.e[0].s.send_len() > 0 {
        while l.sent[0] < msgs && l.e[0].m.unacked.len() < window {
            l.send(0, 2)?;
        }
        for p in std::mem::take(&mut l.net[1]) {
            if !lost() {
                l.receive(1, p)?;
            }
        }
        l.ack(1)?;
        for p in std::mem::take(&mut l.net[0]) {
            if !lost() {
                l.receive(0, p)?;
            }
        }
        l.resend(0, 2, None, 2)?;
        // (what is known to have arrived is no longer needed)
        let old = l.e[1].m.contig.saturating_sub(2 * window as u64);
        l.e[1].m.got.retain(|s| *s > old);
    }
    Ok(true)
}

pub fn c01() {
    let mut c = Check::new("C01", "model_checking");
    c.rule("States are pairs of real MrpStream objects plus the packets in flight, merged by their full Debug text; every action of sender, receiver and network (deliver in any order, deliver a copy, lose, resend, acknowledge) is applied in every state, and from every state a loss-free continuation must deliver everything.");
    c.assume("An endpoint keeps calling try_resend and try_send_ack (the polling contract in the documentation).");
    c.assume("At most the stated number of packets is in flight per direction and the stated number of retransmission rounds happens inside the explored prefix.");
    let secs = pick(60.0, 260.0);
    let run = |c: &mut Check, name: &str, cfg: Cfg| {
        c.bfs(name, bfs::Limits { depth: 60, max_states: pick(400_000, 6_000_000), max_seconds: secs }, move || Link::new(cfg));
    };
    let b = Cfg { window: 1, msgs: [2, 0], net: 2, resends: 2, hostile: false, liveness: true };
    run(&mut c, "window1_one_way", b);
    run(&mut c, "window2_one_way", Cfg { window: 2, msgs: [pick(4, 5), 0], net: 3, resends: 2, ..b });
    run(&mut c, "window3_one_way", Cfg { window: 3, msgs: [pick(4, 5), 0], net: 3, resends: pick(1, 2), ..b });
    run(&mut c, "window1_both_ways", Cfg { window: 1, msgs: [2, 2], net: 1, resends: 1, ..b });
    run(&mut c, "window2_both_ways", Cfg { window: 2, msgs: [2, pick(1, 2)], net: pick(1, 2), resends: 1, ..b });
    let n = pick(400u64, 3000);
    c.enumerate("outages", n * 4, move |i| outage(1 + (i % 2) as usize * 2, 4, i / 4 + 1, i % 4 >= 2));
    large(&mut c);
    c.finish();
}

/// Windows and numbers beyond what can be searched: every one or two losses, and long histories.
fn large(c: &mut Check) {
    let cases: Vec<(usize, usize, usize, bool)> = BIG.iter().flat_map(|w| pairs((*w).min(300)).into_iter().flat_map(move |(i, j)| [(*w, i, j, false), (*w, i, j, true)])).collect();
    let n = cases.len() as u64;
    c.enumerate("large_windows", n, move |k| {
        let (w, i, j, b) = cases[k as usize];
        two_lost(w, i, j, b)
    });
    let msgs = pick(70_000, 200_000);
    c.enumerate("long_histories", 12, move |k| long([1, 3, 16, 64][k as usize % 4], msgs, [7, 1000, u32::MAX][k as usize / 4]));
}

pub fn c02() {
    let mut c = Check::new("C02", "model_checking");
    c.rule("States are pairs of real MrpStream objects plus packets in flight, merged by their full Debug text; in every state every operation, every failing callback and every kind of hostile header is applied and the outcome compared with a reference model of the send window, the receive window and the acknowledgement debt.");
    c.assume("Time is two retransmission deadlines; windows of one to three packets.");
    let secs = pick(60.0, 260.0);
    let run = |c: &mut Check, name: &str, cfg: Cfg| {
        c.bfs(name, bfs::Limits { depth: 60, max_states: pick(400_000, 6_000_000), max_seconds: secs }, move || Link::new(cfg));
    };
    let b = Cfg { window: 1, msgs: [2, 0], net: 2, resends: 2, hostile: true, liveness: false };
    run(&mut c, "window1_hostile", b);
    run(&mut c, "window2_hostile", Cfg { window: 2, msgs: [pick(3, 4), 0], net: pick(2, 3), resends: pick(1, 2), ..b });
    run(&mut c, "window3_hostile", Cfg { window: 3, msgs: [pick(3, 5), 0], net: pick(2, 3), resends: 1, ..b });
    run(&mut c, "both_ways_hostile", Cfg { window: 2, msgs: [pick(1, 2), 1], net: pick(1, 2), resends: 1, ..b });
    large(&mut c);
    c.finish();
}
