//! C24: what the application is shown of the other devices.
use std::{
    collections::{BTreeMap, BTreeSet},
    time::Duration,
};

use mclib::{Check, pick};
use mcstd::mc;
use ringrtc::protobuf::group_call::{
    DeviceToDevice, RemoteMuteRequest, SfuToDevice,
    device_to_device::Reaction,
    sfu_to_device::{CurrentDevices, Speaker},
};

use crate::world::*;

const ME: User = 1;
const MY_DEMUX: Demux = 16;
const DEVICES: [(Demux, User); 3] = [(32, 2), (48, 3), (64, 2)];

/// Which inputs a search has.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part { Lists, Beats, Speakers, Video, Mutes, All }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    /// these devices, in this order; so many pending users; era
    There { order: &'static [usize], pending: usize, era: &'static str },
    /// a heartbeat that is newer than the last, or not
    Beat { d: usize, beat: Beat, newer: bool },
    Speaker { demux: Demux, newer: bool },
    Forward(&'static [(Demux, u32)]),
    Frame { d: usize, height: u32 },
    Leaving { d: usize, by: Option<User> },
    AskMute { by: usize, target: Demux },
    React { d: usize, len: usize },
    /// long enough for a tick
    Wait,
}
const PENDING: [&[(Demux, Option<User>)]; 4] = [&[], &[(96, Some(5))], &[(96, Some(5)), (112, Some(5))], &[(96, Some(6))]];

#[derive(Clone, Debug)]
struct Dev {
    demux: Demux,
    user: User,
    keys: bool,
    beat: Beat,
    beat_ts: u32,
    added: u64,
    spoke: u64,
    leaving: bool,
    forwarding: Option<bool>,
    server: u16,
    decoded: Option<u32>,
    pending: bool,
    requesters: BTreeSet<Demux>,
}
impl Dev {
    fn seen(&self) -> Seen {
        Seen {
            demux: self.demux,
            user: self.user,
            keys: self.keys,
            audio_muted: self.beat.audio_muted,
            video_muted: self.beat.video_muted,
            presenting: self.beat.presenting,
            sharing: self.beat.sharing,
            muted_by: self.beat.muted_by,
            added_ms: self.added,
            spoke_ms: self.spoke,
            leaving: self.leaving,
            forwarding: self.forwarding,
            server_height: self.server,
            decoded_height: self.decoded,
            pending_resolution: self.pending,
            mute_requesters: self.requesters.clone(),
        }
    }
    fn recalc(&mut self) { self.pending = self.server as u32 > self.decoded.unwrap_or(0); }
}

pub struct View {
    o: One,
    part: Part,
    started: bool,
    ts: u32,
    mouths: Vec<Mouth>,
    /// whose key was taken
    have: [bool; 3],
    devs: Vec<Dev>,
    last_speaker: Option<u32>,
    forwarded: BTreeMap<Demux, u16>,
    /// users, pending users, era of the last list
    list: Option<(BTreeSet<User>, (usize, BTreeSet<User>), String)>,
    mute_request: Option<Demux>,
    reactions: Vec<(Demux, usize)>,
    /// what has to be told, in order
    want: Vec<Ev>,
    reached: Vec<&'static str>,
}
fn now() -> u64 { mcstd::time::SystemTime::now().duration_since(mcstd::time::UNIX_EPOCH).unwrap().as_millis() as u64 }

impl View {
    fn new(part: Part) -> Result<View, String> {
        let o = One::new(Setup { user: Some(ME), ..Default::default() });
        o.pc().measure(|t| t.bandwidth = 1_000_000);
        let mouths = DEVICES.iter().enumerate().map(|(i, d)| Mouth::new(d.0, i as u8 + 1, 0)).collect();
        let mut v = View { o, part, started: false, ts: 1, mouths, have: [false; 3], devs: vec![], last_speaker: None, forwarded: BTreeMap::new(), list: None, mute_request: None, reactions: vec![], want: vec![], reached: vec![] };
        v.o.connect();
        v.o.client.set_membership_proof(vec![1]);
        v.o.client.join();
        mc::quiesce();
        v.o.joined(MY_DEMUX, false, Some(ME), "era", KEY);
        mc::quiesce();
        v.o.ice(2);
        mc::quiesce();
        v.apply(Act::There { order: if part == Part::Lists { &[] } else { &[0, 1] }, pending: 0, era: "era" })?;
        for i in 0..DEVICES.len() {
            let (c, s) = v.mouths[i].key();
            v.o.signal(DEVICES[i].1, key_message(DEVICES[i].0, c, &s));
            v.take(i);
        }
        v.started = true;
        v.settle()?;
        Ok(v)
    }
    fn dev(&mut self, demux: Demux) -> Option<&mut Dev> { self.devs.iter_mut().find(|d| d.demux == demux) }
    /// The key of a device arrives, or is there when it joins.
    fn take(&mut self, i: usize) {
        if self.have[i] { return }
        if let Some(d) = self.dev(DEVICES[i].0) {
            d.keys = true;
            self.have[i] = true;
            self.changed(Reason::Keys(DEVICES[i].0));
        }
    }
    fn changed(&mut self, reason: Reason) { self.want.push(Ev::Devices { devices: self.devs.iter().map(Dev::seen).collect(), reason }); }
    fn tell(&mut self, d: usize, ts: u32, m: DeviceToDevice) {
        let o = &self.o;
        self.mouths[d].tell(o, ts, &m);
    }
    fn sfu(&mut self, ts: u32, m: SfuToDevice) { self.o.from_sfu(ts, &m); }
    fn settle(&mut self) -> Result<(), String> {
        mc::quiesce();
        let mut got: Vec<Ev> = self.o.fresh().into_iter().map(|e| e.1).filter(|e| matches!(e, Ev::Devices { .. } | Ev::Peek { .. } | Ev::ObservedMute { .. } | Ev::MuteRequest(_) | Ev::Reactions(_))).collect();
        let mut want = std::mem::take(&mut self.want);
        for e in got.iter_mut().chain(want.iter_mut()) {
            if let Ev::Reactions(r) = e { for x in r { x.1 = x.1.len().to_string(); } }
        }
        if let Some(i) = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)) {
            return Err(format!("the application was told\n    {:?}\n  instead of\n    {:?}", got.get(i), want.get(i)));
        }
        Ok(())
    }
}
impl Model for View {
    type Act = Act;
    fn acts(&self) -> Vec<Act> {
        let mut v = vec![];
        let all = self.part == Part::All;
        let is = |p: Part| self.part == p || all;
        let there = |order, pending, era| Act::There { order, pending, era };
        if self.part == Part::Lists {
            for order in [&[0usize, 1] as &[usize], &[1, 0], &[0], &[1], &[0, 2], &[2, 0, 1], &[]] { v.push(there(order, 0, "era")); }
            for p in 1..PENDING.len() { v.push(there(&[0], p, "era")); }
            v.push(there(&[0], 0, "other era"));
            v.push(there(&[0, 1], 1, "other era"));
        } else {
            v.push(there(&[0, 1], 0, "era"));
            v.push(there(&[1], 0, "era"));
        }
        if self.part == Part::Lists || is(Part::Speakers) {
            v.push(Act::Speaker { demux: 32, newer: true });
            if self.part != Part::Lists {
                v.push(Act::Speaker { demux: 48, newer: true });
                v.push(Act::Speaker { demux: 32, newer: false });
            }
        }
        if self.part == Part::Speakers {
            v.push(Act::Speaker { demux: 48, newer: false });
            v.push(Act::Speaker { demux: MY_DEMUX, newer: true });
            v.push(Act::Speaker { demux: 64, newer: true });
            v.push(there(&[0, 2, 1], 0, "era"));
        }
        let b = Beat { audio_muted: Some(false), video_muted: Some(false), ..Default::default() };
        let m = Beat { audio_muted: Some(true), ..b };
        let mv = Beat { video_muted: Some(true), ..b };
        if is(Part::Beats) {
            for beat in [b, m] { v.push(Act::Beat { d: 0, beat, newer: true }); }
            v.push(Act::Beat { d: 0, beat: m, newer: false });
        }
        if self.part == Part::Beats {
            for beat in [Beat { presenting: Some(true), ..b }, Beat { sharing: Some(true), ..b }, mv] { v.push(Act::Beat { d: 0, beat, newer: true }); }
            v.push(Act::Beat { d: 1, beat: m, newer: true });
            v.push(Act::Beat { d: 1, beat: b, newer: false });
            v.push(Act::Beat { d: 2, beat: b, newer: true });
            v.push(Act::Leaving { d: 0, by: None });
            v.push(Act::Leaving { d: 1, by: Some(3) });
            v.push(Act::Leaving { d: 1, by: Some(2) });
        }
        if is(Part::Video) {
            v.push(Act::Forward(&[(32, 240)]));
            v.push(Act::Forward(&[]));
            v.push(Act::Frame { d: 0, height: 240 });
            v.push(Act::Beat { d: 0, beat: mv, newer: true });
        }
        if self.part == Part::Video {
            v.push(Act::Forward(&[(32, 480), (48, 120)]));
            v.push(Act::Frame { d: 0, height: 480 });
            v.push(Act::Frame { d: 1, height: 120 });
            v.push(Act::Beat { d: 0, beat: b, newer: true });
        }
        if is(Part::Mutes) {
            v.push(Act::AskMute { by: 1, target: 32 });
            v.push(Act::AskMute { by: 0, target: MY_DEMUX });
            v.push(Act::Beat { d: 0, beat: Beat { muted_by: Some(48), ..m }, newer: true });
            v.push(Act::React { d: 0, len: 1 });
            v.push(Act::Wait);
        }
        if self.part == Part::Mutes {
            for beat in [b, m] { v.push(Act::Beat { d: 0, beat, newer: true }); }
            v.push(Act::AskMute { by: 1, target: MY_DEMUX });
            v.push(Act::AskMute { by: 2, target: 32 });
            v.push(Act::Beat { d: 0, beat: Beat { muted_by: Some(64), ..m }, newer: true });
            v.push(Act::React { d: 1, len: 256 });
            v.push(Act::React { d: 1, len: 257 });
            v.push(Act::React { d: 0, len: 0 });
        }
        v
    }
    fn apply(&mut self, a: Act) -> Result<(), String> {
        // no two inputs at the same time
        mc::sleep(Duration::from_millis(1));
        self.ts += 2;
        let ts = self.ts;
        match a {
            Act::There { order, pending, era } => {
                let mut v: Vec<(Demux, Option<User>)> = order.iter().map(|&i| (DEVICES[i].0, Some(DEVICES[i].1))).collect();
                v.insert(v.len() / 2, (MY_DEMUX, Some(ME)));
                self.o.pushed_all(&v, PENDING[pending], era, ts);
                let users: BTreeSet<User> = v.iter().filter_map(|d| d.1).collect();
                let list = (users.clone(), (PENDING[pending].len(), PENDING[pending].iter().filter_map(|p| p.1).collect()), era.to_string());
                if self.list.as_ref() != Some(&list) {
                    self.want.push(Ev::Peek { devices: v, pending: PENDING[pending].iter().map(|p| p.1).collect(), era: Some(era.into()), joined: users });
                }
                self.list = Some(list);
                let old = std::mem::take(&mut self.devs);
                for &i in order {
                    let (demux, user) = DEVICES[i];
                    self.devs.push(match old.iter().find(|d| d.demux == demux) {
                        Some(d) => d.clone(),
                        None => Dev { demux, user, keys: false, beat: Beat::default(), beat_ts: 0, added: now(), spoke: 0, leaving: false, forwarding: None, server: 0, decoded: None, pending: false, requesters: BTreeSet::new() },
                    });
                }
                let set = |v: &[Dev]| v.iter().map(|d| d.demux).collect::<BTreeSet<_>>();
                if set(&old) != set(&self.devs) { self.changed(Reason::Demux); }
                if self.started { for i in 0..DEVICES.len() { self.take(i); } }
            }
            Act::Beat { d, beat, newer } => {
                let demux = DEVICES[d].0;
                let at = if newer { ts } else { self.dev(demux).map_or(1, |d| d.beat_ts) };
                self.tell(d, at, heartbeat(beat));
                let mut observed = None;
                let mut told = false;
                if self.have[d]
                    && let Some(x) = self.dev(demux)
                    && at > x.beat_ts
                {
                    x.beat_ts = at;
                    if x.beat != beat {
                        if beat.video_muted == Some(true) {
                            x.decoded = None;
                            x.recalc();
                        }
                        if beat.audio_muted == Some(false) && x.beat.audio_muted != Some(false) { x.requesters.clear(); }
                        if let Some(by) = beat.muted_by
                            && x.beat.muted_by != Some(by)
                            && beat.audio_muted == Some(true)
                            && x.beat.audio_muted == Some(false)
                            && x.requesters.contains(&by)
                        {
                            observed = Some(by);
                        }
                        x.beat = beat;
                        told = true;
                    }
                }
                if let Some(by) = observed {
                    self.reached.push("a mute by another member was seen");
                    self.want.push(Ev::ObservedMute { by, of: demux });
                }
                if told { self.changed(Reason::Heartbeat(demux)); }
            }
            Act::Speaker { demux, newer } => {
                let at = if newer { ts } else { self.last_speaker.unwrap_or(1) };
                self.sfu(at, SfuToDevice { speaker: Some(Speaker { demux_id: Some(demux) }), ..Default::default() });
                if self.last_speaker.is_none_or(|l| at > l) {
                    self.last_speaker = Some(at);
                    let latest = self.devs.iter().filter(|d| d.spoke > 0).max_by_key(|d| d.spoke).map(|d| d.demux);
                    if latest != Some(demux)
                        && let Some(d) = self.dev(demux)
                    {
                        d.spoke = now();
                        self.changed(Reason::Speaker(demux));
                    }
                }
            }
            Act::Forward(v) => {
                let m = CurrentDevices { demux_ids_with_video: v.iter().map(|x| x.0).collect(), all_demux_ids: vec![], allocated_heights: v.iter().map(|x| x.1).collect() };
                self.sfu(ts, SfuToDevice { current_devices: Some(m), ..Default::default() });
                let map: BTreeMap<Demux, u16> = v.iter().map(|x| (x.0, x.1 as u16)).collect();
                if map != self.forwarded {
                    for d in &mut self.devs {
                        let h = map.get(&d.demux);
                        d.forwarding = Some(h.is_some());
                        d.server = h.copied().unwrap_or(0);
                        if h.is_none() { d.decoded = None; }
                        d.recalc();
                    }
                    self.forwarded = map;
                    self.changed(Reason::Forwarded);
                }
            }
            Act::Frame { d, height } => {
                self.o.frame(DEVICES[d].0, height);
                let mut told = false;
                if let Some(x) = self.dev(DEVICES[d].0)
                    && x.beat.video_muted != Some(true)
                {
                    x.decoded = Some(height);
                    let was = x.pending;
                    x.recalc();
                    told = was != x.pending;
                }
                if told {
                    self.reached.push("the resolution arrived");
                    self.changed(Reason::Resolution);
                }
            }
            Act::Leaving { d, by } => {
                let (demux, user) = DEVICES[d];
                match by {
                    None => self.tell(d, ts, DeviceToDevice { leaving: leaving_message(demux).leaving, ..Default::default() }),
                    Some(by) => self.o.signal(by, leaving_message(demux)),
                }
                if by.map_or(self.have[d], |b| b == user)
                    && let Some(x) = self.dev(demux)
                {
                    x.leaving = true;
                }
            }
            Act::AskMute { by, target } => {
                self.tell(by, ts, DeviceToDevice { remote_mute_request: Some(RemoteMuteRequest { target_demux_id: Some(target) }), ..Default::default() });
                let from = DEVICES[by].0;
                if !self.have[by] {
                } else if target == MY_DEMUX {
                    self.mute_request.get_or_insert(from);
                } else if let Some(x) = self.dev(target)
                    && x.beat.audio_muted != Some(true)
                {
                    x.requesters.insert(from);
                }
            }
            Act::React { d, len } => {
                self.tell(d, ts, DeviceToDevice { reaction: Some(Reaction { value: Some("x".repeat(len)) }), ..Default::default() });
                if self.have[d] && len > 0 && len <= 256 { self.reactions.push((DEVICES[d].0, len)); }
            }
            Act::Wait => {
                mc::sleep(Duration::from_millis(250));
                if !self.reactions.is_empty() {
                    let r = std::mem::take(&mut self.reactions);
                    self.want.push(Ev::Reactions(r.into_iter().map(|(d, n)| (d, "x".repeat(n))).collect()));
                }
                if let Some(d) = self.mute_request.take() { self.want.push(Ev::MuteRequest(d)); }
            }
        }
        self.settle()
    }
    fn end(&mut self) -> Result<(), String> { self.apply(Act::Wait) }
    fn reached(&self) -> Vec<&'static str> { self.reached.clone() }
    fn close(self) { self.o.close() }
}

pub fn c24() {
    let mut c = Check::new("C24", "model_checking");
    let s = pick(60.0, 400.0);
    search(&mut c, "lists of devices", pick(4, 6), s, &|| View::new(Part::Lists));
    search(&mut c, "heartbeats", pick(4, 5), s, &|| View::new(Part::Beats));
    search(&mut c, "speakers", pick(5, 7), s, &|| View::new(Part::Speakers));
    search(&mut c, "video", pick(5, 6), s, &|| View::new(Part::Video));
    search(&mut c, "mutes and reactions", pick(4, 6), s, &|| View::new(Part::Mutes));
    search(&mut c, "everything", pick(4, 5), s, &|| View::new(Part::All));
    c.finish()
}
