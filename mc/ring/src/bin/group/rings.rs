//! C28: ringing a group, and answering a ring.
use std::{collections::BTreeSet, time::Duration};

use mclib::{Check, ensure, pick};
use mcstd::mc;
use ringrtc::{core::group_call::{GroupCallKind, RingId}, protobuf::group_call::{SfuToDevice, sfu_to_device::Removed}};

use crate::world::*;

const ME: User = 1;
const MY_DEMUX: Demux = 16;
const ERA: &str = "00000000000000a7";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Ring,
    /// a ring of the same group arrives for the application
    Provide(i64),
    Join,
    /// let in; who began the call
    LetIn(Option<User>),
    Refuse,
    Leave,
    Disconnect,
    Removed,
    IceFailed,
    /// the SFU lists the own device and so many others, as answer to a peek or on its own
    Peeked(usize),
    Listed(usize),
    Wait,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Joined { Not, Joining, In }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Out { Unknown, Wanted, May, Sent, No }

pub struct Rings {
    o: One,
    user: Option<User>,
    joined: Joined,
    out: Out,
    incoming: Option<i64>,
    others: usize,
    left: bool,
    ending: bool,
    timestamp: u32,
    reached: Vec<&'static str>,
}
fn ring_id() -> i64 { 0xa7 }
impl Rings {
    fn new(kind: GroupCallKind, user: Option<User>, ring: Option<i64>, busy: bool) -> Result<Rings, String> {
        let o = One::new(Setup { kind, user, ring, ..Default::default() });
        o.pc().measure(|t| t.bandwidth = 1_000_000);
        o.client.set_membership_proof(vec![1]);
        *o.busy.lock().unwrap() = busy;
        mc::quiesce();
        let mut r = Rings { o, user, joined: Joined::Not, out: Out::Unknown, incoming: ring, others: 0, left: false, ending: false, timestamp: 1, reached: vec![] };
        r.o.connect();
        mc::quiesce();
        r.o.fresh();
        Ok(r)
    }
    fn ring(&mut self, told: &mut Vec<Msg>) {
        match self.out {
            // it waits until it is known who began the call
            Out::Unknown => self.out = Out::Wanted,
            Out::May => {
                told.push(Msg::Ring { ring: ring_id(), cancel: false });
                self.out = if self.others == 0 { Out::Sent } else { Out::No };
                self.reached.push(if self.others == 0 { "rang an empty call" } else { "rang a call with others" });
            }
            _ => {}
        }
    }
    fn leave(&mut self, told: &mut Vec<Msg>) {
        if self.joined == Joined::Not { return; }
        if self.out == Out::Sent {
            told.push(Msg::Ring { ring: ring_id(), cancel: true });
            self.reached.push("took the ring back");
        }
        self.out = Out::Unknown;
        self.joined = Joined::Not;
        self.left = true;
    }
    fn list(&mut self, n: usize) {
        self.others = n;
        if n > 0 && self.out == Out::Sent {
            self.out = Out::No;
            self.reached.push("somebody came after the ring");
        }
    }
}
fn listed(n: usize) -> Vec<(Demux, Option<User>)> { [(MY_DEMUX, Some(ME)), (32, Some(2)), (48, Some(ME))][..1 + n].to_vec() }
impl Model for Rings {
    type Act = Act;
    fn acts(&self) -> Vec<Act> {
        if self.ending { return vec![Act::Ring, Act::Leave, Act::Wait]; }
        let mut v = vec![Act::Ring];
        if self.joined == Joined::Not && !self.left { v.extend([Act::Join, Act::Provide(9), Act::Provide(-4)]); } else { v.push(Act::Provide(9)); }
        if self.o.joins() > 0 { v.extend([Act::LetIn(Some(ME)), Act::LetIn(Some(2)), Act::LetIn(None), Act::Refuse]); }
        v.extend([Act::Leave, Act::Disconnect]);
        if self.joined == Joined::In { v.extend([Act::Removed, Act::IceFailed, Act::Listed(0), Act::Listed(1), Act::Listed(2)]); }
        if self.o.peeks() > 0 { v.extend([Act::Peeked(0), Act::Peeked(1), Act::Peeked(2)]); }
        v.push(Act::Wait);
        v
    }
    fn apply(&mut self, a: Act) -> Result<(), String> {
        let mut told: Vec<Msg> = vec![];
        match a {
            Act::Ring => { self.o.client.ring(None); self.ring(&mut told); }
            Act::Provide(id) => {
                self.o.client.provide_ring_id_if_absent(RingId::from(id));
                if self.joined == Joined::Not && self.incoming.is_none() { self.incoming = Some(id); }
            }
            Act::Join => {
                self.o.client.join();
                if self.o.busy() {
                    self.ending = true;
                } else {
                    self.joined = Joined::Joining;
                    if let (Some(ring), Some(_)) = (self.incoming, self.user) {
                        told.push(Msg::Response { ring, kind: 1 });
                        self.reached.push("accepted a ring");
                    }
                }
            }
            Act::LetIn(creator) => {
                self.o.joined(MY_DEMUX, false, creator, ERA, KEY);
                if self.joined == Joined::Joining {
                    self.joined = Joined::In;
                    // one of the devices turns out to be the own one
                    self.others = self.others.saturating_sub(1);
                    if creator.is_some() {
                        let wanted = self.out == Out::Wanted;
                        self.out = if creator == self.user { Out::May } else { Out::No };
                        if wanted { self.ring(&mut told); }
                    }
                }
            }
            Act::Refuse => { self.o.refused(); self.leave(&mut told); self.ending = true; }
            Act::Leave => { self.o.client.leave(); self.leave(&mut told); }
            Act::Disconnect => { self.o.client.disconnect(); self.leave(&mut told); self.ending = true; }
            Act::IceFailed => { self.o.ice(4); self.leave(&mut told); self.ending = true; }
            Act::Removed => {
                self.timestamp += 1;
                self.o.from_sfu(self.timestamp, &SfuToDevice { removed: Some(Removed {}), ..Default::default() });
                self.leave(&mut told);
                self.ending = true;
            }
            Act::Peeked(n) => { self.o.peeked(peek_info(&listed(n))); self.list(if self.joined == Joined::In { n } else { n + 1 }); }
            Act::Listed(n) => { self.timestamp += 1; self.o.pushed(&listed(n), self.timestamp); self.list(n); }
            Act::Wait => mc::advance(Duration::from_millis(1000)),
        }
        mc::quiesce();
        let mut heard = vec![];
        for (_, e) in self.o.fresh() {
            let Ev::Send { to, msg, urgent } = e else { continue };
            match &msg {
                Msg::Ring { .. } => ensure!(to.is_none() && urgent, "a ring to {to:?}, urgent: {urgent}"),
                Msg::Response { .. } => ensure!(urgent && to == Some(BTreeSet::from([self.user.unwrap_or(0)])), "an answer to a ring goes to {to:?}, urgent: {urgent}"),
                _ => continue,
            }
            heard.push(msg);
        }
        ensure!(heard == told, "{heard:?} was sent instead of {told:?}");
        Ok(())
    }
    fn end(&mut self) -> Result<(), String> {
        self.apply(Act::Disconnect)?;
        self.apply(Act::Wait)
    }
    fn reached(&self) -> Vec<&'static str> { self.reached.clone() }
    fn close(self) { self.o.close() }
}

pub fn c28() {
    let mut c = Check::new("C28", "model_checking");
    let s = pick(100.0, 500.0);
    search(&mut c, "ringing", pick(6, 7), s, &|| Rings::new(GroupCallKind::SignalGroup, Some(ME), None, false));
    search(&mut c, "with a ring from the start", pick(5, 6), s, &|| Rings::new(GroupCallKind::SignalGroup, Some(ME), Some(5), false));
    search(&mut c, "not knowing who one is", pick(5, 6), s, &|| Rings::new(GroupCallKind::SignalGroup, None, Some(5), false));
    search(&mut c, "busy", pick(4, 5), s, &|| Rings::new(GroupCallKind::SignalGroup, Some(ME), Some(5), true));
    // the ring of an era
    c.enumerate("eras", 16 * 16 + 6, |i| {
        let id = |s: &str| i64::from(RingId::from_era_id(s));
        if i < 256 {
            let (place, digit) = ((i / 16) as u32, i % 16);
            let n = digit << (4 * place);
            let s = format!("{n:016x}");
            ensure!(id(&s) == if n == 0 { -1 } else { n as i64 }, "era {s}: ring {}", id(&s));
            ensure!(id(&s.to_uppercase()) == id(&s), "era {s}: differs in upper case");
        } else {
            let s = ["era", "", "a7", "00000000000000a70", "0000000000000g00", "00000000-0000-00"][(i - 256) as usize];
            let other = format!("{s}x");
            ensure!(id(s) == id(s) && id(s) != 0 && id(s) != id(&other), "era {s:?}: ring {}, another: {}", id(s), id(&other));
        }
        Ok(true)
    });
    c.finish()
}
