//! C22: who can decrypt what a member sends.
use std::{collections::BTreeMap, time::Duration};

use mclib::{Check, ensure, pick};
use mcstd::mc;
use ringrtc::core::group_call::GroupCallKind;

use crate::world::*;

pub const ME: User = 1;
pub const MY_DEMUX: Demux = 16;

/// A device that can be in the call.
pub type Device = (Demux, Option<User>);

#[derive(Clone, Copy, Debug)]
pub enum Act {
    /// the SFU says: exactly these devices (bits of the pool) are there
    There { mask: u8, pushed: bool },
    Wait(u64),
    /// the application asks for the keys to be sent again
    Resend,
}

struct Frame {
    step: usize,
    at: u64,
    plain: Vec<u8>,
    cipher: Vec<u8>,
    there: u8,
}
#[derive(Clone)]
struct Key {
    step: usize,
    counter: u32,
    secret: Vec<u8>,
}
pub struct Keys {
    o: One,
    pool: &'static [Device],
    step: usize,
    mask: u8,
    frames: Vec<Frame>,
    /// every key that was ever sent to a user
    sent: BTreeMap<User, Vec<Key>>,
    /// what a device of the user would hold
    ears: BTreeMap<User, Ear>,
    /// the step and time since which the user is there / is not there
    since: BTreeMap<User, (bool, usize, u64)>,
    timestamp: u32,
    reached: Vec<&'static str>,
}
impl Keys {
    pub fn new(pool: &'static [Device], kind: GroupCallKind, pending: bool) -> Result<Keys, String> {
        let mut o = One::new(Setup { kind, user: Some(ME), ..Default::default() });
        o.pc().measure(|t| t.bandwidth = 1_000_000);
        o.connect();
        o.client.set_membership_proof(vec![1]);
        o.client.join();
        mc::quiesce();
        o.joined(MY_DEMUX, pending, Some(ME), "era", KEY);
        mc::quiesce();
        let mut k = Keys { o, pool, step: 0, mask: 0, frames: vec![], sent: BTreeMap::new(), ears: BTreeMap::new(), since: BTreeMap::new(), timestamp: 1, reached: vec![] };
        for u in k.users() { k.since.insert(u, (u == ME, 0, 0)); k.ears.insert(u, Ear::new()); }
        k.there(0, false);
        k.o.ice(2);
        k.settle()?;
        Ok(k)
    }
    fn users(&self) -> Vec<User> {
        let mut v: Vec<User> = self.pool.iter().filter_map(|d| d.1).collect();
        v.sort();
        v.dedup();
        v
    }
    fn in_call(&self, mask: u8, u: User) -> bool {
        u == ME || self.pool.iter().enumerate().any(|(i, d)| mask >> i & 1 == 1 && d.1 == Some(u))
    }
    fn there(&mut self, mask: u8, pushed: bool) {
        let mut v: Vec<Device> = self.pool.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, d)| *d).collect();
        v.insert(v.len() / 2, (MY_DEMUX, Some(ME)));
        self.timestamp += 1;
        if pushed || self.o.peeks() == 0 { self.o.pushed(&v, self.timestamp); } else { self.o.peeked(peek_info(&v)); }
        self.mask = mask;
    }
    fn settle(&mut self) -> Result<(), String> {
        mc::quiesce();
        let now = mc::now() / 1_000_000;
        for u in self.users() {
            let is = self.in_call(self.mask, u);
            let s = self.since.get_mut(&u).unwrap();
            if s.0 != is { *s = (is, self.step, now); }
        }
        for (_, e) in self.o.fresh() {
            if let Ev::Send { to, msg: Msg::Key { demux, counter, secret }, .. } = e {
                ensure!(demux == MY_DEMUX, "a key for the media of device {demux}");
                let Some(to) = to else { return Err("a media key was sent to the whole group".into()) };
                for u in to {
                    ensure!(self.in_call(self.mask, u), "a media key was sent to user {u}, who is not in the call");
                    self.sent.entry(u).or_default().push(Key { step: self.step, counter, secret: secret.clone() });
                    self.ears.get_mut(&u).unwrap().key(MY_DEMUX, counter, &secret);
                }
            }
        }
        // one frame in every state
        let plain = format!("frame {}", self.frames.len()).into_bytes();
        let Some(cipher) = self.o.encrypt(&plain) else { return Err("a frame could not be encrypted".into()) };
        ensure!(!cipher.windows(5).any(|w| w == b"frame"), "a frame left in the clear");
        for (u, ear) in self.ears.iter_mut() {
            if self.pool.iter().enumerate().any(|(i, d)| self.mask >> i & 1 == 1 && d.1 == Some(*u)) {
                let got = ear.hears(MY_DEMUX, &cipher);
                ensure!(got.as_deref() == Some(&plain[..]), "user {u}, who is in the call, cannot decrypt a frame: {got:?}");
            }
        }
        self.frames.push(Frame { step: self.step, at: now, plain, cipher, there: self.mask });
        // who was added only now must not be able to decrypt anything from before, who was removed nothing from after
        for u in self.users() {
            let keys = self.sent.get(&u).cloned().unwrap_or_default();
            let able = |f: &Frame, from: usize, to: usize| {
                keys.iter().filter(|k| k.step >= from && k.step <= to).any(|k| {
                    let mut e = Ear::new();
                    e.key(MY_DEMUX, k.counter, &k.secret);
                    e.hears(MY_DEMUX, &f.cipher).is_some_and(|p| p == f.plain)
                })
            };
            // with a key that came in this step: only the frames of this step, unless an older key opens them too
            if keys.iter().any(|k| k.step == self.step) {
                for f in self.frames.iter().filter(|f| f.step < self.step) {
                    ensure!(!able(f, self.step, self.step) || able(f, 0, f.step), "user {u} got a key that decrypts a frame of {} ms, from before {u} had any key for it", f.at);
                }
            }
            let (is, step, since) = self.since[&u];
            if !is && (now >= since + 10_000 || step == 0) {
                let f = self.frames.last().unwrap();
                ensure!(!able(f, 0, self.step), "user {u}, who has not been in the call since {since} ms, can decrypt a frame of {now} ms");
                if step > 0 { self.reached.push("removed and locked out"); }
            }
        }
        self.step += 1;
        Ok(())
    }
}
impl Model for Keys {
    type Act = Act;
    fn acts(&self) -> Vec<Act> {
        let mut v = vec![];
        for mask in 0..1u8 << self.pool.len() {
            if mask != self.mask { v.push(Act::There { mask, pushed: self.step % 2 == 0 }); }
        }
        v.push(Act::Wait(1));
        v.push(Act::Wait(5));
        v.push(Act::Resend);
        v
    }
    fn apply(&mut self, a: Act) -> Result<(), String> {
        match a {
            Act::There { mask, pushed } => self.there(mask, pushed),
            Act::Wait(s) => mc::sleep(Duration::from_secs(s)),
            Act::Resend => self.o.client.resend_media_keys(),
        }
        self.settle()
    }
    fn end(&mut self) -> Result<(), String> {
        // in the end, everybody who is not there is locked out
        for _ in 0..3 {
            mc::sleep(Duration::from_secs(5));
            self.settle()?;
        }
        Ok(())
    }
    fn reached(&self) -> Vec<&'static str> {
        let mut v = self.reached.clone();
        if self.sent.values().any(|k| k.len() > 1) { v.push("several keys for a user"); }
        if self.frames.iter().any(|f| f.there.count_ones() > 1) { v.push("several devices"); }
        v
    }
    fn close(self) { self.o.close() }
}

pub fn c22() {
    let mut c = Check::new("C22", "model_checking");
    const THREE: &[Device] = &[(32, Some(2)), (48, Some(2)), (64, Some(3))];
    const OWN: &[Device] = &[(32, Some(2)), (80, Some(ME)), (64, Some(3))];
    const STRANGER: &[Device] = &[(32, Some(2)), (96, None)];
    let s = pick(90.0, 600.0);
    search(&mut c, "two users, one with two devices", pick(5, 7), s, &|| Keys::new(THREE, GroupCallKind::SignalGroup, false));
    search(&mut c, "two users and an own other device", pick(4, 7), s, &|| Keys::new(OWN, GroupCallKind::SignalGroup, false));
    search(&mut c, "a user and a stranger, joined after approval", pick(6, 9), s, &|| Keys::new(STRANGER, GroupCallKind::SignalGroup, true));
    search(&mut c, "in a call link call", pick(4, 7), s, &|| Keys::new(THREE, GroupCallKind::CallLink, false));
    c.finish()
}
