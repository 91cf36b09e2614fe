//! C23: which media keys a member takes, and so whose media and data it believes.
use std::collections::BTreeMap;

use mclib::{Check, ensure, pick};
use mcstd::mc;
use ringrtc::core::group_call::GroupCallKind;

use crate::world::*;

const ME: User = 1;
const MY_DEMUX: Demux = 16;
/// the devices that come and go, and whose they are
const POOL: [(Demux, User); 2] = [(32, 2), (48, 3)];

/// Somebody who speaks as a device: who sends the key, which device it claims to be, secret and ratchet
#[derive(Clone, Copy, Debug)]
struct Claim { from: User, demux: Demux, secret: u8, ratchet: u8 }
const CLAIMS: [Claim; 5] = [
    Claim { from: 2, demux: 32, secret: 1, ratchet: 0 },
    // the same device after a rotation
    Claim { from: 2, demux: 32, secret: 2, ratchet: 7 },
    Claim { from: 3, demux: 48, secret: 3, ratchet: 255 },
    // another member pretends to be device 32
    Claim { from: 3, demux: 32, secret: 4, ratchet: 0 },
    // somebody who is not in the call pretends to be device 32
    Claim { from: 9, demux: 32, secret: 5, ratchet: 1 },
];
fn owner(d: Demux) -> User { POOL.iter().find(|p| p.0 == d).unwrap().1 }

#[derive(Clone, Copy, Debug)]
pub enum Act {
    There { mask: u8, pushed: bool },
    Key(usize),
    /// a key with a secret that is too short or too long, a counter that does not fit, or with no device
    Malformed(usize),
}
pub struct Recv {
    o: One,
    mask: u8,
    step: usize,
    timestamp: u32,
    mouths: Vec<Mouth>,
    /// keys that were taken
    have: [bool; CLAIMS.len()],
    given: BTreeMap<Demux, usize>,
    pending: Vec<usize>,
    /// devices that are there: whether they have a key
    flags: BTreeMap<Demux, bool>,
    reached: Vec<&'static str>,
}
impl Recv {
    fn new(kind: GroupCallKind, joined: bool) -> Result<Recv, String> {
        let o = One::new(Setup { kind, user: Some(ME), ..Default::default() });
        o.pc().measure(|t| t.bandwidth = 1_000_000);
        let mut r = Recv { o, mask: 0, step: 0, timestamp: 1, mouths: CLAIMS.iter().map(|c| Mouth::new(c.demux, c.secret, c.ratchet)).collect(), have: Default::default(), given: BTreeMap::new(), pending: vec![], flags: BTreeMap::new(), reached: vec![] };
        r.o.connect();
        r.o.client.set_membership_proof(vec![1]);
        r.o.client.join();
        mc::quiesce();
        r.o.joined(MY_DEMUX, !joined, Some(ME), "era", KEY);
        mc::quiesce();
        r.there(0, true);
        r.o.ice(2);
        r.settle(vec![])?;
        Ok(r)
    }
    fn there(&mut self, mask: u8, pushed: bool) {
        let mut v: Vec<(Demux, Option<User>)> = POOL.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, d)| (d.0, Some(d.1))).collect();
        v.push((MY_DEMUX, Some(ME)));
        self.timestamp += 1;
        if pushed || self.o.peeks() == 0 { self.o.pushed(&v, self.timestamp); } else { self.o.peeked(peek_info(&v)); }
        self.mask = mask;
    }
    /// The key counts from now on; whether that is the first of its device.
    fn take(&mut self, i: usize) -> Option<Demux> {
        let c = CLAIMS[i];
        if owner(c.demux) != c.from {
            self.reached.push("a forged key");
            return None;
        }
        self.have[i] = true;
        *self.given.entry(c.demux).or_default() += 1;
        let first = !self.flags.insert(c.demux, true).unwrap_or(false);
        first.then_some(c.demux)
    }
    fn settle(&mut self, first: Vec<Demux>) -> Result<(), String> {
        mc::quiesce();
        let mut told = vec![];
        let mut last: Option<BTreeMap<Demux, bool>> = None;
        for (_, e) in self.o.fresh() {
            if let Ev::Devices { devices, reason } = e {
                if let Reason::Keys(d) = reason { told.push(d); }
                last = Some(devices.iter().map(|d| (d.demux, d.keys)).collect());
            }
        }
        ensure!(told == first, "told of the first media key of {told:?}, but it came for {first:?}");
        if let Some(l) = last { ensure!(l == self.flags, "the application sees the keys {l:?}, but those are {:?}", self.flags); }
        // media and data of everybody who claims to be a device
        for i in 0..CLAIMS.len() {
            let c = CLAIMS[i];
            let plain = format!("frame {}", self.step).into_bytes();
            let f = self.mouths[i].frame(&plain);
            let got = self.o.decrypt(c.demux, &f);
            if self.have[i] {
                ensure!(got.as_deref() == Some(&plain[..]), "a frame of {c:?}, whose key arrived, is not decrypted");
            } else {
                ensure!(got.is_none(), "a frame of {c:?}, whose key was not to be taken, is decrypted");
            }
            for d in POOL.iter().filter(|d| d.0 != c.demux) {
                ensure!(self.o.decrypt(d.0, &f).is_none(), "a frame of {c:?} is taken for one of {}", d.0);
            }
            self.timestamp += 1;
            let beat = Beat { muted_by: Some(self.timestamp), ..Default::default() };
            self.mouths[i].tell(&self.o, self.timestamp, &heartbeat(beat));
            mc::quiesce();
            let shown = self.o.fresh().iter().any(|(_, e)| matches!(e, Ev::Devices { devices, reason: Reason::Heartbeat(d) } if *d == c.demux && devices.iter().any(|x| x.demux == c.demux && x.muted_by == beat.muted_by)));
            let expected = self.have[i] && self.flags.contains_key(&c.demux);
            ensure!(shown == expected, "a heartbeat of {c:?} was {}shown", if shown { "" } else { "not " });
        }
        self.step += 1;
        Ok(())
    }
}
impl Model for Recv {
    type Act = Act;
    fn acts(&self) -> Vec<Act> {
        let mut v = vec![];
        for mask in 0..4 {
            if mask != self.mask { v.push(Act::There { mask, pushed: self.step % 2 == 0 }); }
        }
        for (i, c) in CLAIMS.iter().enumerate() {
            // a receiver keeps the last five keys of a device
            let waiting = self.pending.iter().filter(|p| CLAIMS[**p].demux == c.demux).count();
            if self.given.get(&c.demux).copied().unwrap_or(0) + waiting < 5 { v.push(Act::Key(i)); }
        }
        for i in 0..4 { v.push(Act::Malformed(i)); }
        v
    }
    fn apply(&mut self, a: Act) -> Result<(), String> {
        let mut first = vec![];
        match a {
            Act::There { mask, pushed } => {
                self.there(mask, pushed);
                let old = std::mem::take(&mut self.flags);
                for (i, d) in POOL.iter().enumerate() {
                    if mask >> i & 1 == 1 { self.flags.insert(d.0, old.get(&d.0).copied().unwrap_or(false)); }
                }
                for i in std::mem::take(&mut self.pending) {
                    if self.flags.contains_key(&CLAIMS[i].demux) {
                        self.reached.push("a key came before its device");
                        first.extend(self.take(i));
                    } else {
                        self.pending.push(i);
                    }
                }
            }
            Act::Key(i) => {
                let c = CLAIMS[i];
                let (counter, secret) = self.mouths[i].key();
                self.o.signal(c.from, key_message(c.demux, counter, &secret));
                if self.flags.contains_key(&c.demux) { first.extend(self.take(i)); } else { self.pending.push(i); }
            }
            Act::Malformed(i) => {
                let (d, u) = POOL[0];
                let m = match i {
                    0 => key_message(d, 0, &[8; 31]),
                    1 => key_message(d, 0, &[8; 33]),
                    2 => key_message(d, 256, &[8; 32]),
                    _ => { let mut m = key_message(d, 0, &[8; 32]); m.media_key.as_mut().unwrap().demux_id = None; m }
                };
                self.o.signal(u, m);
            }
        }
        self.settle(first)
    }
    fn reached(&self) -> Vec<&'static str> { self.reached.clone() }
    fn close(self) { self.o.close() }
}

pub fn c23() {
    let mut c = Check::new("C23", "model_checking");
    let s = pick(90.0, 600.0);
    search(&mut c, "keys and devices in every order", pick(5, 7), s, &|| Recv::new(GroupCallKind::SignalGroup, true));
    search(&mut c, "joined after approval", pick(4, 6), s, &|| Recv::new(GroupCallKind::SignalGroup, false));
    search(&mut c, "in a call link call", pick(4, 6), s, &|| Recv::new(GroupCallKind::CallLink, true));
    c.finish()
}
