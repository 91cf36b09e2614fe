//! C41: what a group call's peer connection is told: keys, credentials and a place for every device.
use std::{cell::RefCell, collections::BTreeSet, ffi::CStr};

use hkdf::Hkdf;
use mclib::{Check, ensure, json, pick};
use mcstd::mc;
use ringrtc::webrtc::sim::sdp_observer::{Event, listen};
use sha2::Sha256;
use x25519_dalek::{PublicKey, StaticSecret};

use crate::world::*;

type Key = (i32, Vec<u8>, Vec<u8>);
#[derive(Clone, Debug, PartialEq)]
struct Desc {
    remote: bool,
    ufrag: String,
    pwd: String,
    key: Key,
    demux: Demux,
    others: Vec<Demux>,
}
#[repr(C)]
struct RawKey {
    suite: i32,
    key: *const u8,
    key_len: usize,
    salt: *const u8,
    salt_len: usize,
}
#[derive(Default)]
struct WebRtc {
    descs: Vec<Desc>,
    /// which description it fails to make
    fails: Option<usize>,
}
thread_local! {
    static RTC: RefCell<WebRtc> = RefCell::default();
}
fn rtc<T>(f: impl FnOnce(&mut WebRtc) -> T) -> T {
    RTC.with(|r| f(&mut r.borrow_mut()))
}
fn webrtc(e: &Event) -> usize {
    rtc(|r| match e {
        Event::Observer { set: true, .. } => 1,
        Event::Observer { .. } => 8,
        Event::Group { remote, ufrag, pwd, key, demux_id, others } => {
            let k = unsafe { &*(*key as *const RawKey) };
            let of = |p: *const u8, n: usize| (0..n).map(|i| unsafe { *p.add(i) }).collect::<Vec<u8>>();
            let text = |p: *const std::os::raw::c_char| unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
            r.descs.push(Desc { remote: *remote, ufrag: text(*ufrag), pwd: text(*pwd), key: (k.suite, of(k.key, k.key_len), of(k.salt, k.salt_len)), demux: *demux_id, others: others.to_vec() });
            if r.fails == Some(r.descs.len() - 1) { 0 } else { r.descs.len() * 16 }
        }
        _ => 0,
    })
}

/// The keys as the SFU has them.
fn protocol(secret: &StaticSecret, client: [u8; 32], extra: &[u8]) -> (Key, Key) {
    let shared = secret.diffie_hellman(&PublicKey::from(client));
    let info = [&b"Signal_Group_Call_20211105_SignallingDH_SRTPKey_KDF"[..], extra].concat();
    let mut o = [0u8; 56];
    Hkdf::<Sha256>::new(Some(&[0; 32]), shared.as_bytes()).expand(&info, &mut o).unwrap();
    ((7, o[..16].to_vec(), o[16..28].to_vec()), (7, o[28..44].to_vec(), o[44..].to_vec()))
}

const ME: (Demux, User) = (16, 1);
/// Devices: two of one user, the user's own other device, and others.
const OTHERS: [(Demux, Option<User>); 5] = [(32, Some(2)), (48, Some(2)), (64, Some(1)), (80, Some(3)), (96, None)];

#[derive(Clone, Copy, Debug)]
enum Act {
    /// The SFU lets us in, or makes us wait for an approval.
    Join(bool),
    /// The list of devices, of which bit 5 is the own one, backwards or not.
    There(u8, bool),
    /// WebRTC fails to make the next description, or the one after that, when the list is this.
    Fail(usize, u8),
}
struct Model {
    o: One,
    joined: bool,
    failed: bool,
    /// who was there according to the last list
    list: Option<BTreeSet<Demux>>,
    most: usize,
    slots: Vec<Demux>,
    seen: usize,
    keys: Option<(Key, Key)>,
    ts: u32,
    devices: usize,
    reached: Vec<&'static str>,
    variant: usize,
}
fn extra(variant: usize) -> Vec<u8> {
    [vec![], vec![1, 2, 3], vec![0xab; 100]][variant % 3].clone()
}
impl Model {
    fn new(devices: usize, variant: usize) -> Result<Model, String> {
        rtc(|r| *r = WebRtc::default());
        let mut o = One::new(Setup { user: Some(ME.1), ..Default::default() });
        o.connect();
        o.client.set_membership_proof(vec![1]);
        o.client.join();
        mc::quiesce();
        Ok(Model { o, joined: false, failed: false, list: None, most: 0, slots: vec![], seen: 0, keys: None, ts: 1, devices, reached: vec![], variant })
    }
    fn set(&self, bits: u8) -> Vec<(Demux, Option<User>)> {
        let mut v: Vec<_> = (0..5).filter(|k| bits >> k & 1 == 1).map(|k| OTHERS[k]).collect();
        if bits & 32 != 0 { v.push((ME.0, Some(ME.1))); }
        v
    }
    /// What was set since the last look.
    fn look(&mut self) -> Result<(), String> {
        let t = self.o.told();
        let fresh: Vec<Desc> = t.descriptions[self.seen..].iter().map(|(remote, at)| rtc(|r| {
            let d = r.descs[at / 16 - 1].clone();
            assert_eq!(d.remote, *remote, "a local description where a remote one should be");
            d
        })).collect();
        self.seen = t.descriptions.len();
        ensure!(fresh.len() % 2 == 0 || self.failed, "descriptions were not set in pairs");
        let asked = self.o.w.asked.lock().unwrap()[0].clone();
        for p in fresh.chunks(2) {
            if p.len() < 2 { break; }
            let [l, r] = p else { unreachable!() };
            ensure!(!l.remote && r.remote, "first the local, then the remote description");
            let (client, server) = self.keys.clone().ok_or("a description before keys were agreed on")?;
            ensure!((&l.ufrag, &l.pwd) == (&asked.0, &asked.1), "the local ICE credentials are not those that the SFU was told");
            ensure!((r.ufrag.as_str(), r.pwd.as_str()) == ("u", "p"), "the remote ICE credentials are not the SFU's");
            ensure!(l.key == client, "what this client sends is not encrypted with the client's key");
            ensure!(r.key == server, "what this client receives is not decrypted with the server's key");
            ensure!(l.demux == ME.0 && r.demux == ME.0, "another demux ID");
            ensure!(l.others == r.others, "the local description is for {:?}, and the remote one for {:?}", l.others, r.others);
            ensure!(l.others.len() >= self.slots.len(), "the places {:?} became {:?}", self.slots, l.others);
            for (i, (was, is)) in self.slots.iter().zip(&l.others).enumerate() {
                ensure!(was == is || *was == 0 || *is == 0, "place {i} went from {was} to {is} at once");
                ensure!(was == is || *is != 0 || !self.list.as_ref().is_some_and(|l| l.contains(was)), "{was} is there and lost its place");
            }
            let used: Vec<_> = l.others.iter().filter(|d| **d != 0).collect();
            ensure!(used.iter().collect::<BTreeSet<_>>().len() == used.len(), "a device has two places: {:?}", l.others);
            self.slots = l.others.clone();
        }
        if !self.joined || self.failed { return Ok(()); }
        ensure!(t.transceivers == self.slots, "the transceivers are {:?}, and the places {:?}", t.transceivers, self.slots);
        if let Some(list) = &self.list {
            let have: BTreeSet<Demux> = self.slots.iter().copied().filter(|d| *d != 0).collect();
            ensure!(have == *list, "there are {list:?}, and places for {have:?}");
            self.most = self.most.max(list.len());
            ensure!(self.slots.len() == self.most, "{} places, and never more than {} devices", self.slots.len(), self.most);
        } else {
            ensure!(self.slots.is_empty(), "places for nobody");
        }
        Ok(())
    }
    fn arrive(&mut self, bits: u8, backwards: bool) {
        let mut v = self.set(bits);
        if backwards { v.reverse(); }
        if self.joined {
            self.ts += 1;
            self.o.pushed(&v, self.ts);
        } else {
            self.o.peeked(peek_info(&v));
        }
        self.list = Some(v.iter().filter(|d| d.0 != ME.0 && d.1.is_some()).map(|d| d.0).collect());
        mc::quiesce();
    }
    fn ended(&self) -> Option<String> {
        self.o.w.log.lock().unwrap().iter().find_map(|(_, e)| if let Ev::Ended(r) = e { Some(r.clone()) } else { None })
    }
}
impl crate::world::Model for Model {
    type Act = Act;
    fn acts(&self) -> Vec<Act> {
        if self.failed { return vec![]; }
        let mut v = vec![];
        for bits in (0..1 << self.devices).filter(|_| self.joined || self.o.peeks() > 0) {
            // the device without a user only where there are others
            v.push(Act::There(bits | 32, false));
            if self.joined && bits.count_ones() > 1 { v.push(Act::There(bits | 32, true)); }
        }
        if self.joined {
            for bits in [0, 1, 3] {
                let new: BTreeSet<Demux> = self.set(bits).iter().filter(|d| d.1.is_some()).map(|d| d.0).collect();
                if self.list.as_ref().is_none_or(|l| *l != new) && (self.list.is_some() || bits != 0) { v.push(Act::Fail(0, bits)); v.push(Act::Fail(1, bits)); }
            }
        } else {
            v.push(Act::Join(false));
            v.push(Act::Join(true));
            v.push(Act::Fail(0, 0));
            v.push(Act::Fail(1, 0));
        }
        v
    }
    fn apply(&mut self, a: Act) -> Result<(), String> {
        let secret = StaticSecret::from([self.variant as u8 + 1; 32]);
        let join = |s: &mut Model, pending| {
            let asked = s.o.w.asked.lock().unwrap()[0].clone();
            s.keys = Some(protocol(&secret, asked.2, &extra(s.variant)));
            s.o.joined_with(ME.0, pending, Some(1), "era", PublicKey::from(&secret).to_bytes(), &extra(s.variant));
            s.joined = true;
            mc::quiesce();
        };
        match a {
            Act::Join(pending) => {
                join(self, pending);
                self.reached.push(if pending { "pending" } else { "joined" });
                self.look()?;
                if self.most > 0 { self.reached.push("somebody there already"); }
                self.o.ice(2);
                mc::quiesce();
                // the client asks who is there; the answer is older than what is pushed
                while self.o.peeks() > 0 { self.o.peek_failed(); mc::quiesce(); }
            }
            Act::There(bits, backwards) => {
                let before = self.slots.clone();
                self.arrive(bits, backwards);
                self.look()?;
                if before.iter().zip(&self.slots).any(|(a, b)| a != b && *a != 0 && *b != 0) { self.reached.push("a place used again at once"); }
                if before.contains(&0) && self.slots.len() == before.len() && !self.slots.contains(&0) { self.reached.push("an empty place used again"); }
            }
            Act::Fail(n, bits) => {
                self.failed = true;
                rtc(|r| r.fails = Some(r.descs.len() + n));
                let was = self.joined;
                if was { self.arrive(bits | 32, false) } else { join(self, false) }
                mc::advance(std::time::Duration::from_secs(1));
                self.look()?;
                let reason = if was { "FailedToUpdatePeerConnection" } else { "FailedToStartPeerConnection" };
                ensure!(self.ended().as_deref() == Some(reason), "WebRTC made no description, and the call ended with {:?}", self.ended());
                ensure!(self.o.told().closed == 1, "WebRTC made no description, and the connection is open");
                self.reached.push("failed");
            }
        }
        if !self.failed { ensure!(self.ended().is_none(), "the call ended: {:?}", self.ended()); }
        Ok(())
    }
    fn reached(&self) -> Vec<&'static str> { self.reached.clone() }
    fn key(&self) -> String {
        format!("{} {} {:?} {:?}", self.joined, self.failed, self.list, self.slots)
    }
    fn close(self) {
        self.o.close();
    }
}

/// The SFU's key: the keys are those of the protocol, fresh for every call, or the call ends.
fn sfu_key() {
    rtc(|r| *r = WebRtc::default());
    let low = low_order();
    let n = mc::choose(low.len() + 4);
    let e = extra(mc::choose(3));
    let mut fresh = BTreeSet::new();
    let calls = if n < low.len() { 1 } else { 2 };
    for _ in 0..calls {
        let mut o = One::new(Setup::default());
        o.connect();
        o.client.set_membership_proof(vec![1]);
        o.client.join();
        mc::quiesce();
        let asked = o.w.asked.lock().unwrap()[0].clone();
        assert!(fresh.insert(asked.2.to_vec()) && fresh.insert(asked.1.clone().into_bytes()), "the same key or password in two calls");
        let before = rtc(|r| r.descs.len());
        if n < low.len() {
            o.joined_with(ME.0, false, None, "era", low[n], &e);
            mc::advance(std::time::Duration::from_secs(1));
            assert!(o.told().descriptions.is_empty(), "a description was set with the SFU's key {:?}", low[n]);
            let ended: Vec<_> = o.w.log.lock().unwrap().iter().filter_map(|(_, e)| if let Ev::Ended(r) = e { Some(r.clone()) } else { None }).collect();
            assert_eq!(ended, ["FailedToNegotiatedSrtpKeys"], "the SFU's key is {:?}", low[n]);
            mc::cover("improper");
        } else {
            let secret = StaticSecret::from([[1; 32], [0x40; 32], [0xff; 32], [0x5a; 32]][n - low.len()]);
            o.joined_with(ME.0, false, None, "era", PublicKey::from(&secret).to_bytes(), &e);
            mc::quiesce();
            let set: Vec<Key> = rtc(|r| r.descs[before..].iter().map(|d| d.key.clone()).collect());
            let (c, s) = protocol(&secret, asked.2, &e);
            assert_eq!(set, [c.clone(), s.clone()], "the keys of the client and of the server");
            for k in [c, s] { assert!(fresh.insert(k.1), "a key was used twice"); }
            mc::cover("proper");
        }
        o.close();
    }
}
/// Points of low order, and such that reduce to one.
fn low_order() -> Vec<[u8; 32]> {
    let mut one = [0u8; 32];
    one[0] = 1;
    let mut v = vec![[0; 32], one];
    for s in ["e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"] {
        v.push(hex::decode(s).unwrap().try_into().unwrap());
    }
    for last in [0xec, 0xed, 0xee] {
        let mut k = [0xff; 32];
        k[0] = last;
        k[31] = 0x7f;
        v.push(k);
    }
    let high: Vec<_> = v.iter().map(|k| { let mut k = *k; k[31] |= 0x80; k }).collect();
    v.extend(high);
    v
}

pub fn c41() {
    listen(webrtc);
    let mut c = Check::new("C41", "model_checking");
    c.rule("Every sequence of lists of devices before and after the SFU answers (with any subset of the devices, in two orders, also of a user without a name), up to the depth; WebRTC fails to make any one description; every improper key of the SFU.");
    c.assume("WebRTC is a stand-in that keeps what it is given.");
    for (devices, variant, q, t) in [(3, 0, 12, 12), (4, 1, 7, 10), (5, 2, 4, 6)] {
        search(&mut c, &format!("{devices} devices come and go"), pick(q, t), pick(60.0, 250.0), &|| Model::new(devices, variant));
    }
    c.schedules("the SFU's key", &mc::Config { bound: 0, max_seconds: 60, ..Default::default() }, &sfu_key);
    c.sample(json!({"improper keys": low_order().len()}));
    c.finish();
}
