//! Everything around one real group call client: an observer and an SFU client that record what they are
//! told, in order, and the inputs that WebRTC, the SFU, other members and the application deliver.
use std::{
    collections::{BTreeSet, HashMap, HashSet},
    sync::{Arc, Mutex},
    time::Duration,
};

use mcstd::mc;
use prost::Message as _;
use ringrtc::{
    common::{CallEndReason, units::DataRate},
    core::{
        assets::AssetRegistry,
        call_mutex::CallMutex,
        call_summary::CallSummary,
        crypto as frame_crypto,
        endorsements::EndorsementUpdateResultRef,
        group_call::{
            Client, ClientId, ClientStartParams, ConnectionState, GroupCallKind, GroupId, JoinState, Joined, Observer, Reaction,
            RemoteDeviceState, RemoteDevicesChangedReason, RingId, SfuClient, SfuInfo, SignalingMessageUrgency, SpeechEvent,
        },
    },
    lite::{
        http,
        sfu::{DemuxId, GroupMember, MemberResolver, MembershipProof, ObfuscatedResolver, PeekDeviceInfo, PeekInfo, PeekResultCallback, UserId},
    },
    protobuf::{
        self,
        group_call::{DeviceToDevice, DeviceToSfu, SfuToDevice},
    },
    webrtc::{
        self,
        media::{AudioTrack, VideoTrack},
        peer_connection::{AudioLevel, ReceivedAudioLevel, SendRates},
        peer_connection_observer::NetworkRoute,
        rtp,
        sim::{
            peer_connection::{RffiPeerConnection, Told},
            peer_connection_factory::Slot,
            peer_connection_observer::RffiPeerConnectionObserver,
            rtp_observer::RffiRtpObserver,
        },
    },
};

pub type User = u8;
pub type Demux = u32;
pub const GROUP: [u8; 3] = [7, 7, 7];
pub fn uid(u: User) -> UserId { vec![u; 4] }

/// What a member is told about a device, in the terms of the application.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Seen {
    pub demux: Demux,
    pub user: User,
    pub keys: bool,
    pub audio_muted: Option<bool>,
    pub video_muted: Option<bool>,
    pub presenting: Option<bool>,
    pub sharing: Option<bool>,
    pub muted_by: Option<u32>,
    pub added_ms: u64,
    pub spoke_ms: u64,
    pub leaving: bool,
    pub forwarding: Option<bool>,
    pub server_height: u16,
    pub decoded_height: Option<u32>,
    pub pending_resolution: bool,
    pub mute_requesters: BTreeSet<Demux>,
}
pub fn seen(d: &RemoteDeviceState) -> Seen {
    Seen {
        demux: d.demux_id,
        user: d.user_id[0],
        keys: d.media_keys_received,
        audio_muted: d.heartbeat_state.audio_muted,
        video_muted: d.heartbeat_state.video_muted,
        presenting: d.heartbeat_state.presenting,
        sharing: d.heartbeat_state.sharing_screen,
        muted_by: d.heartbeat_state.muted_by_demux_id,
        added_ms: d.added_time_as_unix_millis(),
        spoke_ms: d.speaker_time_as_unix_millis(),
        leaving: d.leaving_received,
        forwarding: d.forwarding_video,
        server_height: d.server_allocated_height,
        decoded_height: d.client_decoded_height,
        pending_resolution: d.is_higher_resolution_pending,
        mute_requesters: d.remote_mute_requesters.iter().copied().collect(),
    }
}

/// A message for another member.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Msg {
    Key { demux: Demux, counter: u32, secret: Vec<u8> },
    Leaving(Demux),
    Ring { ring: i64, cancel: bool },
    Response { ring: i64, kind: i32 },
    Other,
}
pub fn message(m: &protobuf::signaling::CallMessage) -> Msg {
    if let Some(g) = &m.group_call_message {
        if let Some(k) = &g.media_key {
            return Msg::Key { demux: k.demux_id(), counter: k.ratchet_counter(), secret: k.secret().to_vec() };
        }
        if let Some(l) = &g.leaving { return Msg::Leaving(l.demux_id()); }
    }
    if let Some(r) = &m.ring_intention { return Msg::Ring { ring: r.ring_id(), cancel: r.r#type() as i32 == 1 }; }
    if let Some(r) = &m.ring_response { return Msg::Response { ring: r.ring_id(), kind: r.r#type() as i32 }; }
    Msg::Other
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Reason { Demux, Keys(Demux), Speaker(Demux), Heartbeat(Demux), Forwarded, Resolution }

/// What the application, the SFU and the other members get to see.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ev {
    NeedProof,
    NeedMembers,
    /// to None: the whole group
    Send { to: Option<BTreeSet<User>>, msg: Msg, urgent: bool },
    Conn(&'static str),
    Join(String),
    Route,
    Rates { min: Option<u64>, start: Option<u64>, max: Option<u64> },
    Devices { devices: Vec<Seen>, reason: Reason },
    Peek { devices: Vec<(Demux, Option<User>)>, pending: Vec<Option<User>>, era: Option<String>, joined: BTreeSet<User> },
    Track(Demux),
    Speak(&'static str),
    Levels(u16, Vec<(Demux, u16)>),
    LowBandwidth(bool),
    Reactions(Vec<(Demux, String)>),
    Hands(Vec<Demux>),
    MuteRequest(Demux),
    ObservedMute { by: Demux, of: Demux },
    Ended(String),
    SfuJoin,
    SfuPeek,
    SfuProof,
    SfuMembers(usize),
    /// RTP data to the SFU (decoded), or through it (still encrypted)
    ToSfu { seqnum: u16, timestamp: u32, text: String },
    Through { ssrc: u32, seqnum: u16, timestamp: u32 },
}

#[derive(Default)]
pub struct World {
    pub log: Mutex<Vec<(u64, Ev)>>,
    pub joins: Mutex<Vec<Client>>,
    /// what the SFU was told when asked to join: ICE credentials and public key
    pub asked: Mutex<Vec<(String, String, [u8; 32])>>,
    pub peeks: Mutex<Vec<PeekResultCallback>>,
    /// the raw messages of ToSfu and Through, in order
    pub to_sfu: Mutex<Vec<(u64, DeviceToSfu)>>,
    pub through: Mutex<Vec<(u64, rtp::Header, Vec<u8>)>>,
}
impl World {
    pub fn put(&self, e: Ev) {
        mc::log(format!("  {} ms -> {e:?}", mc::now() / 1_000_000));
        self.log.lock().unwrap().push((mc::now() / 1_000_000, e));
    }
}

struct Obs(Arc<World>);
fn rate(r: Option<DataRate>) -> Option<u64> { r.map(|r| r.as_bps()) }
impl Observer for Obs {
    fn request_membership_proof(&self, _: ClientId) { self.0.put(Ev::NeedProof) }
    fn request_group_members(&self, _: ClientId) { self.0.put(Ev::NeedMembers) }
    fn send_signaling_message(&mut self, to: UserId, m: protobuf::signaling::CallMessage, u: SignalingMessageUrgency) {
        self.0.put(Ev::Send { to: Some(BTreeSet::from([to[0]])), msg: message(&m), urgent: u == SignalingMessageUrgency::HandleImmediately })
    }
    fn send_signaling_message_to_group(&mut self, group: GroupId, m: protobuf::signaling::CallMessage, u: SignalingMessageUrgency, to: HashSet<UserId>) {
        assert_eq!(group, GROUP, "a message for another group");
        let to = if to.is_empty() { None } else { Some(to.iter().map(|t| t[0]).collect()) };
        self.0.put(Ev::Send { to, msg: message(&m), urgent: u == SignalingMessageUrgency::HandleImmediately })
    }
    fn send_signaling_message_to_adhoc_group(&mut self, m: protobuf::signaling::CallMessage, u: SignalingMessageUrgency, _e: u64, to: HashMap<UserId, Vec<u8>>) {
        self.0.put(Ev::Send { to: Some(to.keys().map(|t| t[0]).collect()), msg: message(&m), urgent: u == SignalingMessageUrgency::HandleImmediately })
    }
    fn handle_connection_state_changed(&self, _: ClientId, s: ConnectionState) {
        self.0.put(Ev::Conn(match s {
            ConnectionState::NotConnected => "NotConnected",
            ConnectionState::Connecting => "Connecting",
            ConnectionState::Connected => "Connected",
            ConnectionState::Reconnecting => "Reconnecting",
        }))
    }
    fn handle_network_route_changed(&self, _: ClientId, _: NetworkRoute) { self.0.put(Ev::Route) }
    fn handle_join_state_changed(&self, _: ClientId, j: JoinState) { self.0.put(Ev::Join(format!("{j:?}"))) }
    fn handle_send_rates_changed(&self, _: ClientId, r: SendRates) { self.0.put(Ev::Rates { min: rate(r.min), start: rate(r.start), max: rate(r.max) }) }
    fn handle_remote_devices_changed(&self, _: ClientId, d: &[RemoteDeviceState], r: RemoteDevicesChangedReason) {
        let reason = match r {
            RemoteDevicesChangedReason::DemuxIdsChanged => Reason::Demux,
            RemoteDevicesChangedReason::MediaKeyReceived(d) => Reason::Keys(d),
            RemoteDevicesChangedReason::SpeakerTimeChanged(d) => Reason::Speaker(d),
            RemoteDevicesChangedReason::HeartbeatStateChanged(d) => Reason::Heartbeat(d),
            RemoteDevicesChangedReason::ForwardedVideosChanged => Reason::Forwarded,
            RemoteDevicesChangedReason::HigherResolutionPendingChanged => Reason::Resolution,
        };
        self.0.put(Ev::Devices { devices: d.iter().map(seen).collect(), reason })
    }
    fn handle_peek_changed(&self, _: ClientId, p: &PeekInfo, joined: &HashSet<UserId>) {
        let mut pending: Vec<_> = p.pending_devices.iter().map(|d| d.user_id.as_ref().map(|u| u[0])).collect();
        pending.sort();
        self.0.put(Ev::Peek {
            devices: p.devices.iter().map(|d| (d.demux_id, d.user_id.as_ref().map(|u| u[0]))).collect(),
            pending,
            era: p.era_id.clone(),
            joined: joined.iter().map(|u| u[0]).collect(),
        })
    }
    fn handle_incoming_video_track(&mut self, _: ClientId, d: DemuxId, _: VideoTrack) { self.0.put(Ev::Track(d)) }
    fn handle_speaking_notification(&mut self, _: ClientId, e: SpeechEvent) {
        self.0.put(Ev::Speak(match e { SpeechEvent::StoppedSpeaking => "stopped", SpeechEvent::LowerHandSuggestion => "lower hand" }))
    }
    fn handle_audio_levels(&self, _: ClientId, l: AudioLevel, r: Vec<ReceivedAudioLevel>) { self.0.put(Ev::Levels(l, r.iter().map(|x| (x.demux_id, x.level)).collect())) }
    fn handle_low_bandwidth_for_video(&self, _: ClientId, recovered: bool) { self.0.put(Ev::LowBandwidth(recovered)) }
    fn handle_reactions(&self, _: ClientId, r: Vec<Reaction>) { self.0.put(Ev::Reactions(r.into_iter().map(|r| (r.demux_id, r.value)).collect())) }
    fn handle_raised_hands(&self, _: ClientId, h: Vec<DemuxId>) { self.0.put(Ev::Hands(h)) }
    fn handle_remote_mute_request(&self, _: ClientId, by: DemuxId) { self.0.put(Ev::MuteRequest(by)) }
    fn handle_observed_remote_mute(&self, _: ClientId, by: DemuxId, of: DemuxId) { self.0.put(Ev::ObservedMute { by, of }) }
    fn handle_rtc_stats_report(&self, _: String) {}
    fn handle_ended(&self, _: ClientId, r: CallEndReason, _: CallSummary) { self.0.put(Ev::Ended(format!("{r:?}"))) }
    fn handle_endorsements_update(&self, _: ClientId, _: EndorsementUpdateResultRef) {}
}

/// How the SFU calls the members: u1, u2, ...
struct Members;
impl MemberResolver for Members {
    fn resolve(&self, id: &str) -> Option<UserId> { id.strip_prefix('u').and_then(|n| n.parse().ok()).map(uid) }
    fn resolve_bytes(&self, id: &[u8]) -> Option<UserId> { self.resolve(std::str::from_utf8(id).ok()?) }
}

struct Sfu(Arc<World>);
impl SfuClient for Sfu {
    fn join(&mut self, ufrag: &str, pwd: &str, dhe: [u8; 32], client: Client) {
        self.0.put(Ev::SfuJoin);
        self.0.asked.lock().unwrap().push((ufrag.into(), pwd.into(), dhe));
        self.0.joins.lock().unwrap().push(client);
    }
    fn peek(&mut self, cb: PeekResultCallback) {
        self.0.put(Ev::SfuPeek);
        self.0.peeks.lock().unwrap().push(cb);
    }
    fn set_membership_proof(&mut self, _: MembershipProof) { self.0.put(Ev::SfuProof) }
    fn set_group_members(&mut self, m: Vec<GroupMember>) { self.0.put(Ev::SfuMembers(m.len())) }
}

pub fn to_sfu_text(m: &DeviceToSfu) -> String {
    use protobuf::group_call::device_to_sfu::AdminAction as A;
    let mut v = vec![];
    if let Some(r) = &m.video_request {
        let mut q: Vec<_> = r.requests.iter().map(|q| (q.demux_id.unwrap_or(0), q.height.unwrap_or(u32::MAX))).collect();
        q.sort();
        v.push(format!("video {q:?} max {:?} speaker {:?}", r.max_kbps, r.active_speaker_height));
    }
    if m.leave.is_some() { v.push("leave".into()); }
    match &m.admin_action {
        Some(A::Approve(t)) => v.push(format!("approve {}", t.target_demux_id())),
        Some(A::Deny(t)) => v.push(format!("deny {}", t.target_demux_id())),
        Some(A::Remove(t)) => v.push(format!("remove {}", t.target_demux_id())),
        Some(A::Block(t)) => v.push(format!("block {}", t.target_demux_id())),
        None => {}
    }
    if let Some(r) = &m.raise_hand { v.push(format!("hand {} #{}", r.raise(), r.seqnum())); }
    if let Some(h) = &m.mrp_header { v.push(format!("mrp {:?}/{:?}/{:?}", h.seqnum, h.ack_num, h.num_packets)); }
    if let Some(c) = &m.content { v.push(format!("content {}", c.len())); }
    if let Some(s) = &m.stats { v.push(format!("stats {}", s.client_errors.len())); }
    v.join(", ")
}

pub struct Setup {
    pub user: Option<User>,
    pub kind: GroupCallKind,
    pub ring: Option<i64>,
    pub busy: Arc<CallMutex<bool>>,
    pub levels: Option<Duration>,
}
impl Default for Setup {
    fn default() -> Setup {
        Setup { user: Some(1), kind: GroupCallKind::SignalGroup, ring: None, busy: Arc::new(CallMutex::new(false, "busy")), levels: None }
    }
}

/// One real client.
pub struct One {
    pub w: Arc<World>,
    pub client: Client,
    pub slot: Box<Slot>,
    pub busy: Arc<CallMutex<bool>>,
    pub seen: usize,
    ever_connected: bool,
}
impl One {
    pub fn new(s: Setup) -> One {
        let w = Arc::new(World::default());
        let slot = Box::<Slot>::default();
        let track = AudioTrack::new(webrtc::Arc::from_owned(unsafe { webrtc::ptr::OwnedRc::from_ptr(&*slot as *const Slot as *const u32) }), None);
        let client = Client::start(ClientStartParams {
            group_id: GROUP.to_vec(),
            client_id: 5,
            kind: s.kind,
            sfu_client: Box::new(Sfu(w.clone())),
            observer: Box::new(Obs(w.clone())),
            busy: s.busy.clone(),
            self_uuid: Arc::new(CallMutex::new(s.user.map(uid), "self")),
            asset_registry: AssetRegistry::default(),
            peer_connection_factory: None,
            outgoing_audio_track: track,
            outgoing_video_track: None,
            incoming_video_sink: None,
            ring_id: s.ring.map(RingId::from),
            audio_levels_interval: s.levels,
            dred_duration: 0,
            obfuscated_resolver: ObfuscatedResolver::new(Arc::new(Members), None, None),
            group_send_endorsement_cache: None,
        })
        .expect("start");
        mc::quiesce();
        let one = One { w: w.clone(), client, slot, busy: s.busy, seen: 0, ever_connected: false };
        one.pc().set_rtp_packet_sink(Box::new(move |h, p| {
            assert_eq!(h.pt, 101, "RTP data with another payload type");
            if h.ssrc == 1 {
                let m = DeviceToSfu::decode(p).expect("sent data decodes");
                w.put(Ev::ToSfu { seqnum: h.seqnum, timestamp: h.timestamp, text: to_sfu_text(&m) });
                w.to_sfu.lock().unwrap().push((mc::now() / 1_000_000, m));
            } else {
                w.put(Ev::Through { ssrc: h.ssrc, seqnum: h.seqnum, timestamp: h.timestamp });
                w.through.lock().unwrap().push((mc::now() / 1_000_000, h, p.to_vec()));
            }
        }));
        one
    }
    pub fn pc(&self) -> &RffiPeerConnection {
        use ringrtc_atomics::Ordering::SeqCst;
        unsafe { &*(self.slot.pc.load(SeqCst) as *const RffiPeerConnection) }
    }
    pub fn told(&self) -> Told { self.pc().told() }
    fn observer(&self) -> &RffiPeerConnectionObserver {
        use ringrtc_atomics::Ordering::SeqCst;
        unsafe { &*(self.slot.observer.load(SeqCst) as *const RffiPeerConnectionObserver) }
    }
    pub fn busy(&self) -> bool { *self.busy.lock().unwrap() }
    /// What was recorded since the last look.
    pub fn fresh(&mut self) -> Vec<(u64, Ev)> {
        let l = self.w.log.lock().unwrap();
        let v = l[self.seen..].to_vec();
        self.seen = l.len();
        v
    }

    pub fn connect(&mut self) { self.ever_connected = true; self.client.connect(); }
    /// Answers the oldest join request.
    pub fn joined(&self, demux: Demux, pending: bool, creator: Option<User>, era: &str, key: [u8; 32]) {
        self.joined_with(demux, pending, creator, era, key, &[1, 2, 3])
    }
    pub fn joined_with(&self, demux: Demux, pending: bool, creator: Option<User>, era: &str, key: [u8; 32], extra: &[u8]) {
        let c = self.w.joins.lock().unwrap().remove(0);
        c.on_sfu_client_join_attempt_completed(Ok(Joined {
            sfu_info: SfuInfo {
                udp_addresses: vec!["10.0.0.1:1".parse().unwrap()],
                tcp_addresses: vec![],
                tls_addresses: vec![],
                hostname: None,
                ice_ufrag: "u".into(),
                ice_pwd: "p".into(),
            },
            local_demux_id: demux,
            server_dhe_pub_key: key,
            hkdf_extra_info: extra.to_vec(),
            creator: creator.map(uid),
            era_id: era.into(),
            join_state: if pending { JoinState::Pending(demux) } else { JoinState::Joined(demux) },
        }));
    }
    pub fn refused(&self) {
        let c = self.w.joins.lock().unwrap().remove(0);
        c.on_sfu_client_join_attempt_completed(Err(anyhow::anyhow!("no")));
    }
    pub fn peeks(&self) -> usize { self.w.peeks.lock().unwrap().len() }
    pub fn joins(&self) -> usize { self.w.joins.lock().unwrap().len() }
    /// Answers the oldest peek.
    pub fn peeked(&self, p: PeekInfo) { let cb = self.w.peeks.lock().unwrap().remove(0); cb(Ok(p)); }
    pub fn peek_failed(&self) { let cb = self.w.peeks.lock().unwrap().remove(0); cb(Err(http::ResponseStatus { code: 500 })); }

    /// The SFU's message that says who is there now.
    pub fn pushed(&self, devices: &[(Demux, Option<User>)], timestamp: u32) { self.pushed_all(devices, &[], "era", timestamp) }
    pub fn pushed_all(&self, devices: &[(Demux, Option<User>)], pending: &[(Demux, Option<User>)], era: &str, timestamp: u32) {
        use protobuf::group_call::sfu_to_device::{DeviceJoinedOrLeft, PeekInfo as P, peek_info::PeekDeviceInfo as D};
        let all = |v: &[(Demux, Option<User>)]| v.iter().map(|(d, u)| D { demux_id: Some(*d), opaque_user_id: Some(match u { Some(u) => format!("u{u}"), None => "?".into() }) }).collect();
        let peek_info = Some(P {
            era_id: Some(era.into()),
            max_devices: Some(16),
            devices: all(devices),
            pending_devices: all(pending),
            ..Default::default()
        });
        self.from_sfu(timestamp, &SfuToDevice { device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info }), ..Default::default() });
    }
    pub fn from_sfu(&self, timestamp: u32, m: &SfuToDevice) { self.rtp(101, 1, timestamp, &m.encode_to_vec()); }
    /// RTP that arrives.
    pub fn rtp(&self, pt: u8, ssrc: u32, timestamp: u32, payload: &[u8]) {
        let p = self.told().rtp_observer;
        assert!(p != 0, "no RTP observer");
        let o = unsafe { &*(p as *const RffiRtpObserver) };
        type F = extern "C" fn(*const std::ffi::c_void, u8, u16, u32, u32, *const u8, usize);
        let f: F = unsafe { std::mem::transmute(o.on_rtp_received) };
        f(o.observer, pt, timestamp as u16, timestamp, ssrc, payload.as_ptr(), payload.len());
    }
    pub fn signal(&self, from: User, m: DeviceToDevice) { self.client.on_signaling_message_received(uid(from), m); }

    /// ICE, as WebRTC reports it: 0 new, 1 checking, 2 connected, 3 completed, 4 failed, 5 disconnected, 6 closed.
    pub fn ice(&self, state: u32) {
        let o = self.observer();
        let f: extern "C" fn(*const std::ffi::c_void, u32) = unsafe { std::mem::transmute(o.callbacks[2]) };
        f(o.observer, state);
    }
    /// A frame of the local microphone or camera, as it would leave.
    pub fn encrypt(&self, plain: &[u8]) -> Option<Vec<u8>> {
        let o = self.observer();
        type Size = extern "C" fn(*const std::ffi::c_void, bool, usize) -> usize;
        type F = extern "C" fn(*const std::ffi::c_void, *const u8, usize, *mut u8, usize, *mut usize) -> bool;
        let size: Size = unsafe { std::mem::transmute(o.callbacks[8]) };
        let f: F = unsafe { std::mem::transmute(o.callbacks[9]) };
        let mut out = vec![0u8; size(o.observer, true, plain.len())];
        let mut n = 0;
        let ok = f(o.observer, plain.as_ptr(), plain.len(), out.as_mut_ptr(), out.len(), &mut n);
        ok.then(|| { out.truncate(n); out })
    }
    pub fn decrypt(&self, demux: Demux, cipher: &[u8]) -> Option<Vec<u8>> {
        let o = self.observer();
        type Size = extern "C" fn(*const std::ffi::c_void, u32, bool, usize) -> usize;
        type F = extern "C" fn(*const std::ffi::c_void, u32, *const u8, usize, *mut u8, usize, *mut usize) -> bool;
        let size: Size = unsafe { std::mem::transmute(o.callbacks[10]) };
        let f: F = unsafe { std::mem::transmute(o.callbacks[11]) };
        let mut out = vec![0u8; size(o.observer, demux, true, cipher.len())];
        let mut n = 0;
        let ok = f(o.observer, demux, cipher.as_ptr(), cipher.len(), out.as_mut_ptr(), out.len(), &mut n);
        ok.then(|| { out.truncate(n); out })
    }

    /// A video frame of a device was decoded.
    pub fn frame(&self, demux: Demux, height: u32) {
        #[repr(C)]
        struct Metadata { width: u32, height: u32, rotation: u32 }
        let o = self.observer();
        type F = extern "C" fn(*const std::ffi::c_void, u32, Metadata, *const std::ffi::c_void);
        let f: F = unsafe { std::mem::transmute(o.callbacks[7]) };
        f(o.observer, demux, Metadata { width: 2 * height, height, rotation: 0 }, std::ptr::null());
    }

    /// Ends the client and what it runs.
    pub fn close(mut self) {
        if !self.ever_connected { self.connect(); }
        self.client.disconnect();
        mc::advance(Duration::from_millis(300));
        self.w.joins.lock().unwrap().clear();
        self.w.peeks.lock().unwrap().clear();
        use ringrtc_atomics::Ordering::SeqCst;
        let pc = self.slot.pc.load(SeqCst) as *mut RffiPeerConnection;
        self.pc().set_rtp_packet_sink(Box::new(|_, _| {}));
        drop(self.client);
        mc::quiesce();
        let _ = pc;
    }
}
use mcstd::sync::atomic as ringrtc_atomics;

pub fn devices(v: &[(Demux, Option<User>)]) -> Vec<PeekDeviceInfo> {
    v.iter().map(|(d, u)| PeekDeviceInfo { demux_id: *d, user_id: u.map(uid) }).collect()
}
pub fn peek_info(v: &[(Demux, Option<User>)]) -> PeekInfo {
    PeekInfo { devices: devices(v), pending_devices: vec![], creator: None, era_id: Some("era".into()), max_devices: Some(16), call_link_state: None }
}
pub const KEY: [u8; 32] = { let mut k = [3u8; 32]; k[0] = 9; k };

/// Somebody who holds some of a sender's media keys.
pub struct Ear(pub frame_crypto::Context);
impl Ear {
    pub fn new() -> Ear { Ear(frame_crypto::Context::new([0; 32])) }
    pub fn key(&mut self, demux: Demux, counter: u32, secret: &[u8]) {
        self.0.add_receive_secret(demux, counter as u8, secret.try_into().unwrap());
    }
    /// Takes a frame apart as its format says: media, ratchet counter (1), frame counter (4), MAC (16).
    pub fn hears(&mut self, demux: Demux, frame: &[u8]) -> Option<Vec<u8>> {
        let n = frame.len();
        let mut media = frame[..n - 21].to_vec();
        let ratchet = frame[n - 21];
        let counter = u32::from_be_bytes(frame[n - 20..n - 16].try_into().unwrap());
        let mac: frame_crypto::Mac = frame[n - 16..].try_into().unwrap();
        self.0.decrypt(demux, ratchet, counter as u64, &mut media, &mac).ok().map(|_| media)
    }
}

pub fn key_message(demux: Demux, counter: u32, secret: &[u8]) -> DeviceToDevice {
    DeviceToDevice {
        group_id: Some(GROUP.to_vec()),
        media_key: Some(protobuf::group_call::device_to_device::MediaKey { demux_id: Some(demux), ratchet_counter: Some(counter), secret: Some(secret.to_vec()) }),
        ..Default::default()
    }
}
pub fn leaving_message(demux: Demux) -> DeviceToDevice {
    DeviceToDevice {
        group_id: Some(GROUP.to_vec()),
        leaving: Some(protobuf::group_call::device_to_device::Leaving { demux_id: Some(demux) }),
        ..Default::default()
    }
}

/// Runs a history; the body must clean up when it returns an error.
pub fn run<R>(body: impl Fn() -> Result<R, String> + Sync, cfg: &mc::Config, prefix: Vec<u16>) -> (Result<R, String>, Vec<String>)
where R: Send {
    getrandom::mc_seed(1);
    let out: Mutex<Option<Result<R, String>>> = Mutex::new(None);
    let r = mc::run_once(cfg, prefix, &|| {
        let v = body();
        mc::set_quiet(true);
        *out.lock().unwrap() = Some(v);
    });
    if let Some(e) = r.engine_error {
        mclib::die(&format!("engine error: {e}"));
    }
    let res = match (r.error, out.into_inner().unwrap()) {
        (Some(e), _) => Err(e),
        (None, Some(v)) => v,
        (None, None) => Err("the execution ended early".into()),
    };
    (res, r.log)
}

/// Something to search: a state reached by inputs, checked after each of them.
pub trait Model {
    type Act: Copy + std::fmt::Debug;
    fn acts(&self) -> Vec<Self::Act>;
    /// Applies an input and checks what came of it.
    fn apply(&mut self, a: Self::Act) -> Result<(), String>;
    /// What can only be checked at the end of a history.
    fn end(&mut self) -> Result<(), String> { Ok(()) }
    fn reached(&self) -> Vec<&'static str>;
    /// States with the same key are merged; the empty key is never merged.
    fn key(&self) -> String { String::new() }
    fn close(self);
}
pub fn search<M: Model>(c: &mut mclib::Check, name: &str, depth: usize, seconds: f64, make: &(dyn Fn() -> Result<M, String> + Sync)) {
    let mut l = mclib::bfs::Limits::depth(depth);
    l.max_seconds = seconds;
    let cfg = mc::Config { bound: 0, max_steps: 400_000, ..Default::default() };
    let st = c.paths(name, l, &|choices| {
        run(
            || {
                let mut m = make()?;
                let r = (|| {
                    let mut acts = m.acts();
                    for &c in choices {
                        if c as usize >= acts.len() { mclib::die("replay of a known history diverged"); }
                        let a = acts[c as usize];
                        mc::log(format!("{a:?}"));
                        m.apply(a)?;
                        acts = m.acts();
                    }
                    let step = mclib::paths::Step { key: m.key(), arity: acts.len(), reached: m.reached() };
                    m.end()?;
                    Ok(step)
                })();
                m.close();
                r
            },
            &cfg,
            vec![],
        )
    });
    eprintln!("   {:?} {:?}", st.levels, st.covered);
}

/// A device that speaks: encrypts media and data as a member does.
pub struct Mouth {
    demux: Demux,
    ctx: frame_crypto::Context,
}
impl Mouth {
    pub fn new(demux: Demux, secret: u8, ratchet: u8) -> Mouth {
        let mut ctx = frame_crypto::Context::new([secret; 32]);
        for _ in 0..ratchet { ctx.advance_send_ratchet(); }
        Mouth { demux, ctx }
    }
    /// The key that opens what it says.
    pub fn key(&self) -> (u32, Vec<u8>) {
        let (c, s) = self.ctx.send_state();
        (c as u32, s.to_vec())
    }
    pub fn frame(&mut self, plain: &[u8]) -> Vec<u8> {
        let mut v = plain.to_vec();
        let mut mac = frame_crypto::Mac::default();
        let (r, c) = self.ctx.encrypt(&mut v, &mut mac).unwrap();
        v.push(r);
        v.extend_from_slice(&(c as u32).to_be_bytes());
        v.extend_from_slice(&mac);
        v
    }
    /// Data, as it arrives from the SFU.
    pub fn tell(&mut self, o: &One, timestamp: u32, m: &DeviceToDevice) {
        let f = self.frame(&m.encode_to_vec());
        o.rtp(101, self.demux + 0xD, timestamp, &f);
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Beat {
    pub audio_muted: Option<bool>,
    pub video_muted: Option<bool>,
    pub presenting: Option<bool>,
    pub sharing: Option<bool>,
    pub muted_by: Option<u32>,
}
pub fn heartbeat(b: Beat) -> DeviceToDevice {
    DeviceToDevice {
        heartbeat: Some(protobuf::group_call::device_to_device::Heartbeat {
            audio_muted: b.audio_muted,
            video_muted: b.video_muted,
            presenting: b.presenting,
            sharing_screen: b.sharing,
            muted_by_demux_id: b.muted_by,
        }),
        ..Default::default()
    }
}
