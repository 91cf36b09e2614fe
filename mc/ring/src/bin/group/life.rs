//! C27: joining, leaving and ending of a group call.
use std::time::Duration;

use mclib::{Check, ensure, pick};
use mcstd::mc;
use ringrtc::{core::group_call::GroupCallKind, protobuf::group_call::{SfuToDevice, sfu_to_device::Removed}};

use crate::world::*;

const ME: User = 1;
const MY_DEMUX: Demux = 16;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Conn { Not, Connecting, Connected, Reconnecting, Closed }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Joined { Not, Joining, Pending, Joined }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Connect,
    Join,
    Leave,
    Disconnect,
    /// the SFU lets the client in, or makes it wait, or refuses
    LetIn { pending: bool },
    Refuse,
    /// ICE: 1 checking, 2 connected, 4 failed, 5 disconnected
    Ice(u32),
    Removed,
    /// the SFU lists the devices: with this one, or without it
    Listed(bool),
    /// another call begins or ends
    Other,
    Wait(u64),
}

pub struct Life {
    o: One,
    /// running before
    threads: usize,
    conn: Conn,
    join: Joined,
    /// has left, so does not join again
    left: bool,
    started: bool,
    /// when it ends, and why
    ending: Option<(u64, &'static str)>,
    /// join was called while it was ending
    late_join: bool,
    other: bool,
    ended: bool,
    timestamp: u32,
    reached: Vec<&'static str>,
}
fn now() -> u64 { mc::now() / 1_000_000 }
impl Life {
    fn new(kind: GroupCallKind, connected: bool) -> Result<Life, String> {
        let threads = mc::live_threads();
        let o = One::new(Setup { kind, user: Some(ME), ..Default::default() });
        o.pc().measure(|t| t.bandwidth = 1_000_000);
        o.client.set_membership_proof(vec![1]);
        mc::quiesce();
        let mut l = Life { o, threads, conn: Conn::Not, join: Joined::Not, left: false, started: false, ending: None, late_join: false, other: false, ended: false, timestamp: 1, reached: vec![] };
        l.o.fresh();
        if connected {
            for a in [Act::Connect, Act::Join, Act::LetIn { pending: false }, Act::Ice(2)] { l.apply(a)?; }
        }
        Ok(l)
    }
    fn in_it(&self) -> bool { self.join != Joined::Not }
    fn leave(&mut self, told: &mut Vec<Ev>) {
        if self.in_it() {
            self.join = Joined::Not;
            self.left = true;
            told.push(Ev::Join("NotJoined(None)".into()));
        }
    }
    fn end(&mut self, reason: &'static str, told: &mut Vec<Ev>) {
        self.leave(told);
        if self.ending.is_none() && matches!(self.conn, Conn::Connecting | Conn::Connected | Conn::Reconnecting) {
            self.ending = Some((now() + 20, reason));
        } else if self.ending.is_some() {
            self.reached.push("two reasons to end");
        }
    }
    fn say(&mut self, c: Conn, told: &mut Vec<Ev>) {
        self.conn = c;
        told.push(Ev::Conn(match c { Conn::Connecting => "Connecting", Conn::Connected => "Connected", Conn::Reconnecting => "Reconnecting", _ => "NotConnected" }));
    }
}
impl Model for Life {
    type Act = Act;
    fn acts(&self) -> Vec<Act> {
        let mut v = vec![];
        if self.conn == Conn::Not { v.push(Act::Connect); } else {
            // joining again after leaving is not supported, but it must be harmless once the call is ending
            if !self.left || self.ending.is_some() || self.ended { v.push(Act::Join); }
            v.extend([Act::Leave, Act::Disconnect]);
        }
        if self.o.joins() > 0 && !self.late_join { v.extend([Act::LetIn { pending: false }, Act::LetIn { pending: true }, Act::Refuse]); }
        if self.started && self.conn != Conn::Closed { v.extend([Act::Ice(2), Act::Ice(4), Act::Ice(5)]); }
        if self.started && matches!(self.join, Joined::Pending | Joined::Joined) { v.extend([Act::Removed, Act::Listed(true), Act::Listed(false)]); }
        if self.conn != Conn::Not { v.extend([Act::Wait(10), Act::Wait(25)]); }
        if self.other || !self.o.busy() { v.push(Act::Other); }
        v
    }
    fn apply(&mut self, a: Act) -> Result<(), String> {
        let mut told: Vec<Ev> = vec![];
        let mut asked = 0;
        let mut left = self.in_it() && self.join != Joined::Joining;
        let closed = self.conn == Conn::Closed;
        match a {
            Act::Connect => { self.o.connect(); self.say(Conn::Connecting, &mut told); }
            Act::Join => {
                self.o.client.join();
                if !closed && self.join == Joined::Not {
                    if self.ending.is_some() {
                        self.late_join = true;
                        self.reached.push("join while it is ending");
                    } else if self.other {
                        self.end("CallManagerIsBusy", &mut told);
                        self.reached.push("busy with another call");
                    } else {
                        self.join = Joined::Joining;
                        told.push(Ev::Join("Joining".into()));
                        asked = 1;
                    }
                }
            }
            Act::Leave => { self.o.client.leave(); if !closed { self.leave(&mut told); } }
            Act::Disconnect => { self.o.client.disconnect(); if !closed { self.end("DeviceExplicitlyDisconnected", &mut told); } }
            Act::LetIn { pending } => {
                self.o.joined(MY_DEMUX, pending, Some(ME), "era", KEY);
                if !closed {
                    if self.conn == Conn::Connecting { self.started = true; }
                    if self.join == Joined::Joining {
                        self.join = if pending { Joined::Pending } else { Joined::Joined };
                        told.push(Ev::Join(format!("{:?}({MY_DEMUX})", self.join)));
                    } else {
                        self.reached.push("let in after leaving");
                    }
                }
            }
            Act::Refuse => {
                self.o.refused();
                if !closed { self.end("SfuClientFailedToJoin", &mut told); }
            }
            Act::Ice(i) => {
                self.o.ice(i);
                match (self.conn, i) {
                    (Conn::Connecting, 4 | 5) => self.end("IceFailedWhileConnecting", &mut told),
                    (Conn::Connecting | Conn::Reconnecting, 2) => self.say(Conn::Connected, &mut told),
                    (Conn::Connected, 5) => self.say(Conn::Reconnecting, &mut told),
                    (_, 4) => self.end("IceFailedAfterConnected", &mut told),
                    _ => {}
                }
            }
            Act::Removed => {
                self.timestamp += 1;
                self.o.from_sfu(self.timestamp, &SfuToDevice { removed: Some(Removed {}), ..Default::default() });
                let r = if self.join == Joined::Joined { "RemovedFromCall" } else { "DeniedRequestToJoinCall" };
                self.end(r, &mut told);
            }
            Act::Listed(me) => {
                self.timestamp += 1;
                let d = [(32, Some(2)), (MY_DEMUX, Some(ME))];
                self.o.pushed(&d[..if me { 2 } else { 1 }], self.timestamp);
                if me && self.join == Joined::Pending {
                    self.join = Joined::Joined;
                    told.push(Ev::Join(format!("Joined({MY_DEMUX})")));
                    self.reached.push("approved");
                }
            }
            Act::Other => {
                self.other = !self.other;
                *self.o.busy.lock().unwrap() = self.other;
            }
            Act::Wait(ms) => mc::advance(Duration::from_millis(ms)),
        }
        left &= !self.in_it();
        if let Some((t, reason)) = self.ending && now() >= t && !self.ended {
            self.say(Conn::Closed, &mut told);
            told.push(Ev::Ended(reason.into()));
            self.ended = true;
        }
        mc::quiesce();
        let (mut heard, mut joins, mut leaves) = (vec![], 0, 0);
        let mut after = false;
        for (_, e) in self.o.fresh() {
            ensure!(!after && !closed, "the application or the SFU hears {e:?} after the end");
            match e {
                Ev::Join(_) if self.late_join => {}
                Ev::Conn(_) | Ev::Join(_) => heard.push(e),
                Ev::Ended(_) => { heard.push(e); after = true; }
                Ev::SfuJoin => joins += 1,
                Ev::ToSfu { ref text, .. } if text == "leave" => leaves += 1,
                _ => {}
            }
        }
        ensure!(heard == told, "the application heard {heard:?} instead of {told:?}");
        ensure!(self.late_join || joins == asked, "asked the SFU to join {joins} times instead of {asked}");
        ensure!(left == (leaves > 0), "{} although it {}", if leaves > 0 { "told the SFU that it leaves" } else { "did not tell the SFU that it leaves" }, if left { "does" } else { "does not" });
        if left {
            let t = self.o.told();
            ensure!(t.outgoing == Some(false) && t.incoming == Some(false), "media stay on after leaving");
        }
        if !self.late_join || self.ended {
            let busy = self.in_it() || self.other;
            ensure!(self.o.busy() == busy, "the call manager is{} busy, {}", if busy { " not" } else { "" }, if self.ended { "but the call has ended" } else if busy { "but a call is going on" } else { "but no call is" });
        }
        if self.ended {
            let n = mc::live_threads();
            ensure!(n == self.threads, "{} threads run on after the end", n - self.threads);
            ensure!(self.o.told().closed == 1, "the peer connection was closed {} times", self.o.told().closed);
        }
        Ok(())
    }
    fn end(&mut self) -> Result<(), String> {
        if self.conn == Conn::Not || self.ended { return Ok(()); }
        self.apply(Act::Disconnect)?;
        self.apply(Act::Wait(25))?;
        ensure!(self.ended, "disconnecting does not end the call");
        Ok(())
    }
    fn reached(&self) -> Vec<&'static str> { self.reached.clone() }
    fn close(self) { self.o.close() }
}

pub fn c27() {
    let mut c = Check::new("C27", "model_checking");
    let s = pick(120.0, 600.0);
    search(&mut c, "from the start", pick(7, 8), s, &|| Life::new(GroupCallKind::SignalGroup, false));
    search(&mut c, "from within the call", pick(5, 6), s, &|| Life::new(GroupCallKind::SignalGroup, true));
    search(&mut c, "a call link call", pick(6, 7), s, &|| Life::new(GroupCallKind::CallLink, false));
    c.finish()
}
