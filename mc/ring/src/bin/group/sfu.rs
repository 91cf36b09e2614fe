//! C25: reliable messages between the SFU and a client; C26: raised hands.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    time::Duration,
};

use mclib::{Check, ensure, pick};
use mcstd::{mc, time::SystemTime};
use prost::Message as _;
use ringrtc::{
    core::crypto::DecryptionErrorStats,
    protobuf::group_call::{DeviceToSfu, MrpHeader, SfuToDevice, sfu_to_device::RaisedHands},
};

use crate::world::*;

const ME: User = 1;
const MY_DEMUX: Demux = 16;

/// A client that is in the call.
fn there(pending: &[(Demux, Option<User>)]) -> One {
    let mut o = One::new(Setup { user: Some(ME), ..Default::default() });
    o.pc().measure(|t| t.bandwidth = 1_000_000);
    o.connect();
    o.client.set_membership_proof(vec![1]);
    o.client.join();
    mc::quiesce();
    o.joined(MY_DEMUX, false, Some(ME), "era", KEY);
    mc::quiesce();
    o.pushed_all(&[(MY_DEMUX, Some(ME)), (32, Some(2))], pending, "era", 1);
    o.ice(2);
    mc::quiesce();
    mc::advance(Duration::from_millis(400));
    o.fresh();
    o
}
fn hands(list: Vec<Demux>, target: u32) -> SfuToDevice {
    SfuToDevice { raised_hands: Some(RaisedHands { seqnums: vec![0; list.len()], demux_ids: list, target_seqnum: Some(target) }), ..Default::default() }
}

/// How the SFU sends a message.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// its fields in the packet itself
    Fields,
    /// encoded into the content of a single packet
    Content,
    /// encoded into the content of so many packets
    Parts(u32),
    /// content that cannot be decoded
    Garbage,
}
use Kind::*;
const SCRIPTS: [&[Kind]; 8] = [
    &[Fields, Fields, Fields],
    &[Content, Content, Fields],
    &[Parts(2), Content, Fields],
    &[Content, Parts(2), Fields],
    &[Fields, Parts(3), Content],
    &[Garbage, Content, Content],
    &[Parts(2), Parts(2), Content],
    &[Content, Garbage, Parts(2)],
];

#[derive(Clone, Copy, Debug)]
pub enum In {
    Script(usize),
    Deliver(usize),
    /// something sent without the reliable stream
    Loose,
    Tick,
}
pub struct FromSfu {
    o: One,
    packets: Vec<SfuToDevice>,
    /// the message that is complete with this packet, and whether it has an effect
    done: Vec<Option<Demux>>,
    got: BTreeSet<usize>,
    /// packets 0..contig have been received
    contig: usize,
    acked: usize,
    repeated: bool,
    gap: bool,
    loose: u32,
    timestamp: u32,
    started: bool,
    reached: Vec<&'static str>,
}
impl FromSfu {
    fn new() -> Result<FromSfu, String> {
        Ok(FromSfu { o: there(&[]), packets: vec![], done: vec![], got: BTreeSet::new(), contig: 0, acked: 0, repeated: false, gap: false, loose: 0, timestamp: 100, started: false, reached: vec![] })
    }
    fn write(&mut self, script: &[Kind]) {
        for (i, k) in script.iter().enumerate() {
            let d = 1000 + i as u32;
            let m = hands(vec![d], 0);
            let n = match k { Parts(n) => *n, _ => 1 };
            let mut bytes = m.encode_to_vec();
            if *k == Garbage { bytes = vec![0xff; 3]; }
            let size = bytes.len().div_ceil(n as usize);
            for p in 0..n {
                let mrp = MrpHeader { seqnum: Some(self.packets.len() as u64 + 1), ack_num: None, num_packets: (p == 0 && n > 1).then_some(n) };
                self.packets.push(match k {
                    Fields => SfuToDevice { mrp_header: Some(mrp), ..m.clone() },
                    _ => SfuToDevice { mrp_header: Some(mrp), content: Some(bytes.chunks(size).nth(p as usize).unwrap_or(&[]).to_vec()), ..Default::default() },
                });
                self.done.push((p + 1 == n && *k != Garbage).then_some(d));
            }
        }
        self.started = true;
    }
}
impl Model for FromSfu {
    type Act = In;
    fn acts(&self) -> Vec<In> {
        if !self.started { return (0..SCRIPTS.len()).map(In::Script).collect(); }
        let mut v: Vec<In> = (0..self.packets.len()).map(In::Deliver).collect();
        v.extend([In::Loose, In::Tick]);
        v
    }
    fn apply(&mut self, a: In) -> Result<(), String> {
        let mut expect = vec![];
        self.timestamp += 1;
        match a {
            In::Script(i) => { self.write(SCRIPTS[i]); return Ok(()); }
            In::Deliver(k) => {
                self.o.from_sfu(self.timestamp, &self.packets[k]);
                if k < self.contig { self.repeated = true; self.reached.push("a packet came again"); }
                self.got.insert(k);
                let before = self.contig;
                while self.got.contains(&self.contig) {
                    expect.extend(self.done[self.contig]);
                    self.contig += 1;
                }
                if self.contig > before + 1 && expect.len() > 1 { self.reached.push("messages became ready together"); }
                if self.contig == before && k >= self.contig { self.gap = true; }
            }
            In::Loose => {
                self.loose += 1;
                let d = 2000 + self.loose;
                self.o.from_sfu(self.timestamp, &hands(vec![d], 0));
                expect.push(d);
            }
            In::Tick => mc::advance(Duration::from_millis(200)),
        }
        mc::quiesce();
        let (mut told, mut acks) = (vec![], vec![]);
        for (_, e) in self.o.fresh() {
            match e {
                Ev::Hands(h) => told.extend(h),
                Ev::ToSfu { text, .. } if text.starts_with("mrp") => acks.push(text),
                _ => {}
            }
        }
        ensure!(told == expect, "messages {told:?} took effect, those that became due are {expect:?}");
        if matches!(a, In::Tick) {
            let want = format!("mrp None/Some({})/None", self.contig + 1);
            ensure!(acks.iter().all(|a| *a == want), "acknowledged {acks:?} with {} packets received in a row", self.contig);
            let due = self.contig > self.acked || self.repeated;
            ensure!(acks.len() <= 1 && (!due || acks.len() == 1), "{} acknowledgements at a tick", acks.len());
            ensure!(due || self.gap || acks.is_empty(), "an acknowledgement of nothing new");
            self.acked = self.contig;
            (self.repeated, self.gap) = (false, false);
        } else {
            ensure!(acks.is_empty(), "sent {acks:?}");
        }
        Ok(())
    }
    fn reached(&self) -> Vec<&'static str> { self.reached.clone() }
    fn close(self) { self.o.close() }
}

#[derive(Clone, Copy, Debug)]
pub enum Out {
    Remove(Demux),
    Block(Demux),
    Approve(User),
    Deny(User),
    /// a report that takes several packets
    Report,
    /// the SFU acknowledges all / one more / what it had acknowledged / what was never sent
    AckAll,
    AckOne,
    AckOld,
    AckNever,
    Wait(u64),
}
pub struct ToSfu {
    o: One,
    /// per reliable seqnum: what was sent and when last
    sent: BTreeMap<u64, (DeviceToSfu, u64)>,
    next: u64,
    acked: u64,
    last: Option<u32>,
    timestamp: u32,
    reported: u32,
    reached: Vec<&'static str>,
}
impl ToSfu {
    fn new() -> Result<ToSfu, String> {
        let mut t = ToSfu { o: there(&[(96, Some(5))]), sent: BTreeMap::new(), next: 1, acked: 0, last: None, timestamp: 100, reported: 0, reached: vec![] };
        t.settle()?;
        Ok(t)
    }
    /// Checks RTP's own numbers; returns the reliable packets sent, with their times.
    fn settle(&mut self) -> Result<Vec<(u64, DeviceToSfu)>, String> {
        mc::quiesce();
        for (_, e) in self.o.fresh() {
            if let Ev::ToSfu { seqnum, timestamp, .. } = e {
                if let Some(l) = self.last { ensure!(timestamp == l + 1, "RTP timestamp {timestamp} after {l}"); }
                ensure!(seqnum == timestamp as u16, "RTP sequence number {seqnum} at timestamp {timestamp}");
                self.last = Some(timestamp);
            }
        }
        let all = std::mem::take(&mut *self.o.w.to_sfu.lock().unwrap());
        Ok(all.into_iter().filter(|(_, m)| m.mrp_header.is_some()).collect())
    }
    fn ack(&mut self, n: u64) {
        self.timestamp += 1;
        self.o.from_sfu(self.timestamp, &SfuToDevice { mrp_header: Some(MrpHeader { seqnum: None, ack_num: Some(n), num_packets: None }), ..Default::default() });
    }
}
fn now_ms() -> u64 { mc::now() / 1_000_000 }
impl Model for ToSfu {
    type Act = Out;
    fn acts(&self) -> Vec<Out> {
        let mut v = vec![Out::Remove(32), Out::Block(48), Out::Approve(5), Out::Deny(6), Out::Report, Out::Wait(200), Out::Wait(1000), Out::AckNever];
        if self.acked + 1 < self.next { v.push(Out::AckAll); }
        if self.acked + 2 < self.next { v.push(Out::AckOne); }
        if self.acked > 0 { v.push(Out::AckOld); }
        v
    }
    fn apply(&mut self, a: Out) -> Result<(), String> {
        // what a message says, in the words of `to_sfu_text`
        let mut says: Option<String> = None;
        match a {
            Out::Remove(d) => { self.o.client.remove_client(d); says = Some(format!("remove {d}")); }
            Out::Block(d) => { self.o.client.block_client(d); says = Some(format!("block {d}")); }
            Out::Approve(u) => { self.o.client.approve_user(uid(u)); says = Some("approve 96".into()); }
            // nobody of that name waits
            Out::Deny(u) => self.o.client.deny_user(uid(u)),
            Out::Report => {
                self.reported += 1;
                let s = DecryptionErrorStats { count: self.reported, start_time: SystemTime::UNIX_EPOCH, last_time: SystemTime::UNIX_EPOCH };
                let errors: HashMap<_, _> = (0..200u32).map(|d| (d * 16, s.clone())).collect();
                self.o.client.send_decryption_stats(errors);
            }
            Out::AckAll => { self.acked = self.next - 1; self.ack(self.next); }
            Out::AckOne => { self.acked += 1; self.ack(self.acked + 1); self.reached.push("a part is acknowledged"); }
            Out::AckOld => self.ack(self.acked),
            Out::AckNever => self.ack(self.next + 1),
            Out::Wait(ms) => mc::advance(Duration::from_millis(ms)),
        }
        let sent = self.settle()?;
        if let Out::Wait(_) = a {
            for (t, m) in sent {
                let h = m.mrp_header.unwrap();
                ensure!(h.ack_num.is_none(), "an acknowledgement of nothing");
                let n = h.seqnum.unwrap_or(0);
                ensure!(n > self.acked && n < self.next, "retransmitted packet {n}, unacknowledged are {}..{}", self.acked + 1, self.next);
                let s = self.sent.get_mut(&n).unwrap();
                ensure!(m == s.0, "packet {n} was retransmitted with another content");
                ensure!(t >= s.1 + 1000, "packet {n} was retransmitted after {} ms", t - s.1);
                s.1 = t;
                self.reached.push("retransmitted");
            }
            for n in self.acked + 1..self.next {
                ensure!(now_ms() - self.sent[&n].1 <= 1200, "packet {n}, not acknowledged, was not retransmitted for {} ms", now_ms() - self.sent[&n].1);
            }
            return Ok(());
        }
        let first = self.next;
        for (t, m) in &sent {
            let h = m.mrp_header.unwrap();
            ensure!(h.seqnum == Some(self.next) && h.ack_num.is_none(), "header {h:?} instead of sequence number {}", self.next);
            ensure!(m.encode_to_vec().len() <= 1200, "a packet of {} bytes", m.encode_to_vec().len());
            self.sent.insert(self.next, (m.clone(), *t));
            self.next += 1;
        }
        if let Out::Report = a {
            ensure!(sent.len() > 1, "a large report in {} packets", sent.len());
            let mut whole = vec![];
            for (i, (_, m)) in sent.iter().enumerate() {
                let n = m.mrp_header.unwrap().num_packets.unwrap_or(0);
                ensure!(n as usize == if i == 0 { sent.len() } else { 0 }, "part {i} of {} announces {n}", sent.len());
                whole.extend_from_slice(m.content.as_deref().unwrap_or(&[]));
            }
            let m = DeviceToSfu::decode(&whole[..]).map_err(|e| format!("the parts of a report do not decode: {e:?}"))?;
            use ringrtc::protobuf::group_call::device_to_sfu::client_error::Error;
            let s = m.stats.ok_or("no report in the parts")?;
            let told: BTreeSet<u32> = s.client_errors.iter().map(|e| match &e.error { Some(Error::Decryption(d)) if d.count == Some(self.reported) => d.sender_demux_id(), _ => 1 }).collect();
            ensure!(told == (0..200).map(|d| d * 16).collect(), "a report of {} senders instead of 200", told.len());
        } else if let Some(s) = says {
            let texts: Vec<_> = sent.iter().map(|(_, m)| to_sfu_text(m)).collect();
            ensure!(texts == vec![format!("{s}, mrp Some({first})/None/None")], "{a:?} sent {texts:?}");
        } else {
            ensure!(sent.is_empty(), "{a:?} sent {sent:?}");
        }
        Ok(())
    }
    fn end(&mut self) -> Result<(), String> {
        // everything that was ever accepted leaves again until it is acknowledged
        self.ack(self.next);
        self.acked = self.next - 1;
        mc::advance(Duration::from_millis(2500));
        let sent = self.settle()?;
        ensure!(sent.is_empty(), "still sends {} reliable packets when everything is acknowledged", sent.len());
        Ok(())
    }
    fn reached(&self) -> Vec<&'static str> { self.reached.clone() }
    fn close(self) { self.o.close() }
}

pub fn c25() {
    let mut c = Check::new("C25", "model_checking");
    let s = pick(120.0, 800.0);
    search(&mut c, "messages of the SFU over every network", pick(6, 7), s, &FromSfu::new);
    search(&mut c, "messages to the SFU", pick(5, 6), s, &ToSfu::new);
    c.finish()
}

#[derive(Clone, Copy, Debug)]
pub enum Hand {
    Raise(bool),
    /// The SFU's list, and the number of the request it has heeded relative to the newest here (None: no request yet).
    List { other: bool, heeded: Option<i8> },
    Wait(u64),
}
pub struct Hands {
    o: One,
    seqnum: u32,
    raise: bool,
    outstanding: bool,
    list: Vec<Demux>,
    fresh: u32,
    last: Option<u64>,
    timestamp: u32,
    reached: Vec<&'static str>,
}
impl Hands {
    fn new() -> Result<Hands, String> {
        Ok(Hands { o: there(&[]), seqnum: 0, raise: false, outstanding: false, list: vec![], fresh: 0, last: None, timestamp: 100, reached: vec![] })
    }
}
impl Model for Hands {
    type Act = Hand;
    fn acts(&self) -> Vec<Hand> {
        let mut v = vec![Hand::Raise(true), Hand::Raise(false), Hand::Wait(200), Hand::Wait(700)];
        for other in [false, true] {
            v.push(Hand::List { other, heeded: None });
            for h in -1..=1 {
                if self.seqnum as i64 + h as i64 > 0 { v.push(Hand::List { other, heeded: Some(h) }); }
            }
        }
        v
    }
    fn apply(&mut self, a: Hand) -> Result<(), String> {
        let mut told = vec![];
        let mut sends = 0;
        match a {
            Hand::Raise(r) => {
                self.o.client.raise_hand(r);
                self.seqnum += 1;
                (self.raise, self.outstanding) = (r, true);
                self.last = None;
                sends = 1;
            }
            Hand::List { other, heeded } => {
                let l = if other {
                    self.fresh += 1;
                    vec![32, MY_DEMUX + self.fresh]
                } else {
                    self.list.clone()
                };
                let n = heeded.map_or(0, |h| (self.seqnum as i64 + h as i64) as u32);
                self.timestamp += 1;
                self.o.from_sfu(self.timestamp, &hands(l.clone(), n));
                let counts = if n == 0 { self.seqnum == 0 } else { n >= self.seqnum };
                if counts {
                    if n != 0 { self.seqnum = n; }
                    if other || self.outstanding { told.push(l.clone()); }
                    if self.outstanding { self.reached.push("a request was heeded"); }
                    self.outstanding = false;
                    self.list = l;
                } else {
                    self.reached.push("an old list");
                }
            }
            Hand::Wait(ms) => mc::advance(Duration::from_millis(ms)),
        }
        mc::quiesce();
        let (mut heard, mut sent) = (vec![], vec![]);
        for (t, e) in self.o.fresh() {
            match e {
                Ev::Hands(h) => heard.push(h),
                Ev::ToSfu { text, .. } if text.starts_with("hand") => sent.push((t, text)),
                _ => {}
            }
        }
        ensure!(heard == told, "told of the raised hands {heard:?} instead of {told:?}");
        let text = format!("hand {} #{}", self.raise, self.seqnum);
        ensure!(sent.iter().all(|s| s.1 == text), "sent {sent:?} instead of {text}");
        if let Hand::Wait(ms) = a {
            if !self.outstanding {
                ensure!(sent.is_empty(), "still sends {sent:?} that was heeded");
            } else {
                ensure!(ms < 700 || !sent.is_empty(), "a request that was not heeded is not repeated within 700 ms");
                for (t, _) in sent {
                    if let Some(l) = self.last { ensure!(t >= l + 500, "repeated after {} ms", t - l); self.reached.push("repeated"); }
                    self.last = Some(t);
                }
            }
        } else {
            ensure!(sent.len() == sends, "sent {sent:?}");
        }
        Ok(())
    }
    fn reached(&self) -> Vec<&'static str> { self.reached.clone() }
    fn close(self) { self.o.close() }
}
pub fn c26() {
    let mut c = Check::new("C26", "model_checking");
    search(&mut c, "raised hands", pick(5, 6), pick(200.0, 800.0), &Hands::new);
    c.finish()
}
