//! C29: what a group call client says of itself and asks of the SFU, and when its media go out.
use std::{collections::BTreeSet, time::Duration};

use mclib::{Check, ensure, pick};
use mcstd::mc;
use prost::Message as _;
use ringrtc::{
    common::{DataMode, units::DataRate},
    core::group_call::{GroupCallKind, VideoRequest},
    protobuf::group_call::{DeviceToDevice, SfuToDevice, sfu_to_device::Removed},
};

use crate::world::*;

const ME: User = 1;
const MY_DEMUX: Demux = 16;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Join,
    LetIn,
    /// the SFU lists the own device and so many others of user 2
    Listed(usize),
    Leave,
    Removed,
    Mute(bool),
    MutedBy(Demux),
    Video(bool),
    Presenting(bool),
    Sharing(bool),
    /// how many bytes
    React(usize),
    MuteOther(Demux),
    /// ask for videos: which of the prepared requests
    Ask(usize),
    Mode(usize),
    Wait(u64),
}
const ASKS: [(&[(Demux, u16, u16)], u16); 3] = [(&[(32, 640, 360), (48, 100, 900)], 360), (&[(48, 0, 0), (99, 5, 5)], 0), (&[], 90)];
fn modes(i: usize) -> (DataMode, u32) {
    match i {
        0 => (DataMode::Low, 500),
        1 => (DataMode::Normal, 20_000),
        _ => (DataMode::Custom { max_bitrate: DataRate::from_kbps(9), max_group_call_receive_rate: DataRate::from_kbps(77) }, 77),
    }
}
/// What goes to the other members.
#[derive(Clone, Debug, PartialEq)]
enum Said { Beat(Beat), React(usize), MuteOther(Demux), Leaving, Unread }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Joined { Not, Joining, In }

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Family { State, Video, Rates, All }
pub struct Send {
    o: One,
    family: Family,
    ear: Ear,
    joined: Joined,
    gone: bool,
    ended: bool,
    beat: Beat,
    next_beat: Option<u64>,
    others: usize,
    asked: Option<usize>,
    asked_since: bool,
    kbps: u32,
    rates: Option<(Option<u64>, Option<u64>, Option<u64>)>,
    media: bool,
    timestamp: u32,
    through: u32,
    read: usize,
    reached: Vec<&'static str>,
}
fn now() -> u64 { mc::now() / 1_000_000 }
fn listed(n: usize) -> Vec<(Demux, Option<User>)> {
    let mut v = vec![(MY_DEMUX, Some(ME))];
    v.extend((0..n).map(|i| (32 + 16 * i as u32, Some(2))));
    v
}
impl Send {
    fn new(family: Family, others: Option<usize>) -> Result<Send, String> {
        let o = One::new(Setup { kind: GroupCallKind::SignalGroup, user: Some(ME), ..Default::default() });
        o.pc().measure(|t| t.bandwidth = 1_000_000);
        o.client.set_membership_proof(vec![1]);
        mc::quiesce();
        let mut s = Send {
            o, family, ear: Ear::new(), joined: Joined::Not, gone: false, ended: false, beat: Beat::default(), next_beat: None, others: 0,
            asked: None, asked_since: false, kbps: 20_000, rates: None, media: false, timestamp: 1, through: 1, read: 0, reached: vec![],
        };
        s.o.connect();
        mc::quiesce();
        s.next_beat = Some(now() + 1000);
        s.o.fresh();
        if let Some(n) = others {
            s.apply(Act::Join)?;
            s.apply(Act::LetIn)?;
            s.o.ice(2);
            s.apply(Act::Listed(n))?;
            s.apply(Act::Wait(5000))?;
        }
        Ok(s)
    }
    fn beat(&mut self, said: &mut Vec<Said>) {
        if self.joined == Joined::In { said.push(Said::Beat(self.beat)); }
    }
    fn video(&mut self, to_sfu: &mut Vec<String>) {
        let Some(a) = self.asked else { return };
        if self.joined != Joined::In { return; }
        let there = listed(self.others);
        let mut q: Vec<(u32, u32)> = ASKS[a].0.iter().filter(|r| there[1..].iter().any(|d| d.0 == r.0)).map(|r| (r.0, r.1.min(r.2) as u32)).collect();
        q.sort();
        to_sfu.push(format!("video {q:?} max {:?} speaker {:?}", Some(self.kbps), Some(ASKS[a].1 as u32)));
    }
    fn ask(&mut self, to_sfu: &mut Vec<String>) {
        if !self.asked_since { self.video(to_sfu); } else { self.reached.push("asked again before the heartbeat"); }
        self.asked_since = true;
    }
    fn rate(&mut self, rates: &mut Vec<(Option<u64>, Option<u64>, Option<u64>)>) {
        if self.joined != Joined::In { return; }
        let r = match (self.others, self.beat.sharing) {
            (0, _) => (None, None, Some(1_000)),
            (_, Some(true)) => (Some(500_000), Some(1_000_000), Some(2_000_000)),
            (1..=7, _) => (None, None, Some(1_000_000)),
            _ => (None, None, Some(671_000)),
        };
        self.media = self.others > 0;
        if self.rates != Some(r) { rates.push(r); self.rates = Some(r); }
    }
    fn leave(&mut self, said: &mut Vec<Said>, to_sfu: &mut Vec<String>) {
        if self.joined == Joined::Not { return; }
        if self.joined == Joined::In {
            said.push(Said::Leaving);
            // twice, as it may be lost
            to_sfu.extend(["leave".into(), "leave".into()]);
        }
        self.joined = Joined::Not;
        self.gone = true;
        self.media = false;
        self.next_beat = None;
    }
}
impl Model for Send {
    type Act = Act;
    fn acts(&self) -> Vec<Act> {
        let mut v = vec![];
        let (all, state, video, rates) = (self.family == Family::All, self.family == Family::State, self.family == Family::Video, self.family == Family::Rates);
        if self.joined == Joined::Not && !self.gone { v.push(Act::Join); }
        if self.o.joins() > 0 && self.joined == Joined::Joining { v.push(Act::LetIn); }
        if self.o.joins() == 0 && !self.ended {
            for n in [0, 1, 2, 7, 8] {
                if n != self.others && (self.joined == Joined::In || self.o.peeks() > 0) && (n < 3 && !rates || n != 2 && (rates || all)) { v.push(Act::Listed(n)); }
            }
        }
        if self.joined != Joined::Not { v.push(Act::Leave); }
        if self.joined == Joined::In { v.push(Act::Removed); }
        if state || all {
            v.extend([Act::Mute(true), Act::Mute(false), Act::MutedBy(32), Act::MutedBy(48), Act::Video(true), Act::Video(false), Act::Presenting(true), Act::React(0), Act::React(1), Act::React(256), Act::React(257), Act::MuteOther(32), Act::MuteOther(MY_DEMUX)]);
        }
        if state || rates || all { v.extend([Act::Sharing(true), Act::Sharing(false)]); }
        if video || all { v.extend([Act::Ask(0), Act::Ask(1), Act::Ask(2), Act::Mode(0), Act::Mode(1), Act::Mode(2)]); }
        v.extend([Act::Wait(200), Act::Wait(1000)]);
        v
    }
    fn apply(&mut self, a: Act) -> Result<(), String> {
        let (mut said, mut to_sfu, mut rates) = (vec![], vec![], vec![]);
        match a {
            Act::Join => { self.o.client.join(); self.joined = Joined::Joining; }
            Act::LetIn => {
                self.o.joined(MY_DEMUX, false, Some(ME), "era", KEY);
                self.joined = Joined::In;
                let r = (None, None, Some(1_000));
                if self.rates != Some(r) { rates.push(r); self.rates = Some(r); }
                self.media = false;
                // the list from before joining counts now, if this device was in it
                if self.read > 0 { self.rate(&mut rates); }
            }
            Act::Listed(n) => {
                if self.joined == Joined::In {
                    self.timestamp += 1;
                    self.o.pushed(&listed(n), self.timestamp);
                } else {
                    let mut l = listed(n);
                    if self.joined == Joined::Not { l.remove(0); }
                    self.read = (self.joined != Joined::Not) as usize;
                    self.o.peeked(peek_info(&l));
                }
                self.others = n;
                self.rate(&mut rates);
            }
            Act::Leave => { self.o.client.leave(); self.leave(&mut said, &mut to_sfu); }
            Act::Removed => {
                self.timestamp += 1;
                self.o.from_sfu(self.timestamp, &SfuToDevice { removed: Some(Removed {}), ..Default::default() });
                self.leave(&mut said, &mut to_sfu);
                self.ended = true;
            }
            Act::Mute(m) => {
                self.o.client.set_outgoing_audio_muted(m);
                if !m || self.beat.audio_muted != Some(true) { self.beat.muted_by = None; }
                self.beat.audio_muted = Some(m);
                self.beat(&mut said);
            }
            Act::MutedBy(d) => {
                self.o.client.set_outgoing_audio_muted_remotely(d);
                if self.beat.audio_muted != Some(true) { self.beat.muted_by = Some(d); self.reached.push("muted by another"); }
                self.beat.audio_muted = Some(true);
                self.beat(&mut said);
            }
            Act::Video(m) => { self.o.client.set_outgoing_video_muted(m); self.beat.video_muted = Some(m); self.beat(&mut said); }
            Act::Presenting(m) => { self.o.client.set_presenting(m); self.beat.presenting = Some(m); self.beat(&mut said); }
            Act::Sharing(m) => {
                self.o.client.set_sharing_screen(m);
                self.beat.sharing = Some(m);
                self.beat(&mut said);
                self.rate(&mut rates);
                if self.gone { self.reached.push("sharing after leaving"); }
            }
            Act::React(n) => {
                self.o.client.react("x".repeat(n));
                if (1..=256).contains(&n) && self.joined == Joined::In { said.push(Said::React(n)); }
            }
            Act::MuteOther(d) => {
                self.o.client.send_remote_mute_request(d);
                if self.joined == Joined::In && d != MY_DEMUX { said.push(Said::MuteOther(d)); }
            }
            Act::Ask(i) => {
                let (r, h) = ASKS[i];
                self.o.client.request_video(r.iter().map(|(d, w, h)| VideoRequest { demux_id: *d, width: *w, height: *h, framerate: None }).collect(), h);
                self.asked = Some(i);
                self.ask(&mut to_sfu);
            }
            Act::Mode(i) => {
                let (m, kbps) = modes(i);
                self.o.client.set_data_mode(m);
                self.kbps = kbps;
                self.ask(&mut to_sfu);
            }
            Act::Wait(ms) => {
                let end = now() + ms;
                let mut t = now();
                while t < end {
                    t += 200;
                    if self.next_beat.is_some_and(|n| t >= n) {
                        self.beat(&mut said);
                        self.video(&mut to_sfu);
                        self.asked_since = false;
                        self.next_beat = Some(t + 1000);
                    }
                }
                mc::advance(Duration::from_millis(ms));
            }
        }
        mc::quiesce();
        let (mut heard, mut at_sfu, mut told) = (vec![], vec![], vec![]);
        for (_, e) in self.o.fresh() {
            match e {
                Ev::Send { to: Some(_), msg: Msg::Key { demux, counter, secret }, .. } => {
                    ensure!(demux == MY_DEMUX, "a key of another device");
                    self.ear.key(demux, counter, &secret);
                }
                Ev::Through { ssrc, timestamp, .. } => {
                    ensure!(ssrc == MY_DEMUX + 0xD, "data as of another device");
                    ensure!(timestamp == self.through, "data number {} has timestamp {timestamp}", self.through);
                    self.through += 1;
                    let (_, _, f) = self.o.w.through.lock().unwrap()[timestamp as usize - 1].clone();
                    heard.push(match self.ear.hears(MY_DEMUX, &f) {
                        None => Said::Unread,
                        Some(p) => {
                            let m = DeviceToDevice::decode(&p[..]).map_err(|e| format!("what is sent does not decode: {e}"))?;
                            match m {
                                DeviceToDevice { heartbeat: Some(h), .. } => Said::Beat(Beat { audio_muted: h.audio_muted, video_muted: h.video_muted, presenting: h.presenting, sharing: h.sharing_screen, muted_by: h.muted_by_demux_id }),
                                DeviceToDevice { reaction: Some(r), .. } => Said::React(r.value().len()),
                                DeviceToDevice { remote_mute_request: Some(r), .. } => Said::MuteOther(r.target_demux_id()),
                                DeviceToDevice { leaving: Some(_), .. } => Said::Leaving,
                                _ => return Err("something else is sent to the others".into()),
                            }
                        }
                    });
                }
                Ev::ToSfu { text, .. } if text.starts_with("video") || text == "leave" => at_sfu.push(text),
                Ev::Rates { min, start, max } => told.push((min, start, max)),
                _ => {}
            }
        }
        // nobody else can read it while this device is alone
        let readable = self.others > 0 && !matches!(a, Act::Listed(_));
        let same = heard.len() == said.len() && heard.iter().zip(&said).all(|(h, s)| h == s || *h == Said::Unread && !readable);
        ensure!(same, "the others hear {heard:?} instead of {said:?}");
        if heard.iter().any(|h| matches!(h, Said::Beat(_))) { self.reached.push("heartbeat heard"); }
        ensure!(at_sfu == to_sfu, "the SFU is told {at_sfu:?} instead of {to_sfu:?}");
        ensure!(told == rates, "the rates become {told:?} instead of {rates:?}");
        let t = self.o.told();
        ensure!((t.outgoing == Some(true)) == self.media, "media {} out", if self.media { "do not go" } else { "go" });
        ensure!(!self.media || t.recording == Some(true) && t.playout == Some(true), "the microphone or the loudspeaker are off");
        ensure!(self.media || self.gone || t.recording != Some(true), "the microphone is on");
        let want = self.rates.map(|(a, b, c)| { let k = |x: Option<u64>| x.map_or(-1, |x| x as i32); (k(a), k(b), k(c)) });
        ensure!(t.rates == want, "WebRTC sends at {:?} instead of {want:?}", t.rates);
        Ok(())
    }
    fn reached(&self) -> Vec<&'static str> { self.reached.iter().copied().collect::<BTreeSet<_>>().into_iter().collect() }
    fn close(self) { self.o.close() }
}

pub fn c29() {
    let mut c = Check::new("C29", "model_checking");
    let s = pick(80.0, 400.0);
    search(&mut c, "what one says of oneself", pick(4, 5), s, &|| Send::new(Family::State, Some(1)));
    search(&mut c, "videos", pick(5, 6), s, &|| Send::new(Family::Video, Some(1)));
    search(&mut c, "rates", pick(6, 8), s, &|| Send::new(Family::Rates, Some(1)));
    search(&mut c, "from before joining", pick(4, 5), s, &|| Send::new(Family::All, None));
    c.finish()
}
