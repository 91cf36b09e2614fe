//! The application and the network around one real CallManager: a `Platform` that records every
//! callback in order, and helpers that make the inputs a peer or WebRTC would deliver.
use std::{
    collections::{HashMap, HashSet},
    fmt,
    sync::{Arc, Mutex, Weak},
    time::Duration,
};

use anyhow::Result;
use mcstd::mc;
use prost::Message as _;
use ringrtc::{
    common::{
        ApplicationEvent, CallConfig, CallDirection, CallEndReason, CallId, CallMediaType, DeviceId,
    },
    core::{
        call::Call,
        call_manager::CallManager,
        call_summary::CallSummary,
        connection::{Connection, ConnectionType},
        group_call,
        platform::{Platform, PlatformItem},
        signaling,
    },
    lite::{
        http,
        sfu::{self, DemuxId, PeekInfo, PeekResult, UserId},
    },
    protobuf,
    webrtc::{
        self,
        media::{MediaStream, VideoTrack},
        peer_connection::{AudioLevel, PeerConnection, ReceivedAudioLevel},
        peer_connection_observer::NetworkRoute,
        rtp_observer::RtpObserverTrait,
        sim::peer_connection::RffiPeerConnection,
    },
};

pub type Id = u64;
pub type Dev = u32;

/// Everything the application or the network sees of a call manager.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ev {
    Start { peer: u8, id: Id, outgoing: bool, video: bool },
    Event { peer: u8, id: Id, event: String },
    Ended { peer: u8, id: Id, reason: String },
    Concluded { peer: u8, id: Id },
    OfferExpired { peer: u8, id: Id },
    Offer { peer: u8, id: Id },
    Answer { peer: u8, id: Id, dev: Dev },
    /// dev None = broadcast
    Ice { peer: u8, id: Id, dev: Option<Dev>, what: Vec<String> },
    Hangup { peer: u8, id: Id, hangup: String },
    Busy { peer: u8, id: Id },
    Conn { id: Id, dev: Dev, kind: String },
    /// a message that the application could not take
    Refused { id: Id, what: &'static str },
    /// RTP data message that left on a connection
    Rtp { id: Id, dev: Dev, msg: String },
    MediaCreated { id: Id, dev: Dev },
    MediaConnected { peer: u8, id: Id, dev: Dev, ctx: u32 },
    MediaDisconnected { ctx: u32 },
    Route { peer: u8 },
    Levels { peer: u8 },
    LowBandwidth { peer: u8, recovered: bool },
    Ring { group: Vec<u8>, ring: i64, sender: Vec<u8>, update: String },
    CallMessage { to: Vec<u8>, message: Vec<u8> },
    Peek(u32),
    Http(u32),
}
impl Ev {
    pub fn id(&self) -> Option<Id> {
        use Ev::*;
        Some(match self {
            Start { id, .. } | Event { id, .. } | Ended { id, .. } | Concluded { id, .. } | OfferExpired { id, .. }
            | Offer { id, .. } | Answer { id, .. } | Ice { id, .. } | Hangup { id, .. } | Busy { id, .. }
            | Conn { id, .. } | Refused { id, .. } | Rtp { id, .. } | MediaCreated { id, .. } | MediaConnected { id, .. } => *id,
            _ => return None,
        })
    }
    /// A signaling message handed to the application for sending.
    pub fn signaling(&self) -> bool {
        matches!(self, Ev::Offer { .. } | Ev::Answer { .. } | Ev::Ice { .. } | Ev::Hangup { .. } | Ev::Busy { .. })
    }
}

#[derive(Default)]
pub struct World {
    pub log: Mutex<Vec<Ev>>,
    pcs: Mutex<HashMap<(Id, Dev), Box<RffiPeerConnection>>>,
    /// names of callbacks that fail
    pub faults: Mutex<HashSet<&'static str>>,
    /// the last answer / offer that was sent (for linked worlds)
    pub offers: Mutex<HashMap<Id, signaling::Offer>>,
    pub answers: Mutex<HashMap<(Id, Dev), signaling::Answer>>,
    pub ice: Mutex<Vec<(Id, Option<Dev>, signaling::Ice)>>,
    pub hangups: Mutex<Vec<signaling::Hangup>>,
    pub rtp: Mutex<Vec<(Id, Dev, webrtc::rtp::Header, Vec<u8>)>>,
}
impl World {
    pub fn put(&self, e: Ev) {
        mc::log(format!("  -> {e:?}"));
        self.log.lock().unwrap().push(e);
    }
    pub fn pc(&self, id: Id, dev: Dev) -> Option<RffiPeerConnection> {
        self.pcs.lock().unwrap().get(&(id, dev)).map(|p| (**p).clone())
    }
    fn refuse(&self, id: CallId, name: &'static str) -> Result<()> {
        let r = self.fault(name);
        if r.is_err() { self.put(Ev::Refused { id: id.as_u64(), what: name }); }
        r
    }
    fn fault(&self, name: &'static str) -> Result<()> {
        if self.faults.lock().unwrap().contains(name) { Err(anyhow::anyhow!("injected {name}")) } else { Ok(()) }
    }
}

pub fn rtp_text(m: &protobuf::rtp_data::Message) -> String {
    let mut v = vec![];
    if let Some(a) = &m.accepted { v.push(format!("accepted({})", a.id())); }
    if let Some(h) = &m.hangup { v.push(format!("hangup({},{:?},{:?})", h.id(), h.r#type(), h.device_id)); }
    if let Some(s) = &m.sender_status { v.push(format!("sender({},v{:?},s{:?},a{:?})", s.id(), s.video_enabled, s.sharing_screen, s.audio_enabled)); }
    if let Some(r) = &m.receiver_status { v.push(format!("receiver({},{:?})", r.id(), r.max_bitrate_bps)); }
    format!("#{} {}", m.seqnum.unwrap_or(0), v.join(" "))
}

#[derive(Clone)]
pub struct P(pub Arc<World>);
impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "P") }
}
impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "P") }
}
#[derive(Clone, Debug)]
pub struct Peer(pub u8);
impl PlatformItem for Peer {}
#[derive(Clone, Debug)]
pub struct Ctx(pub u32);
impl PlatformItem for Ctx {}
#[derive(Clone, Debug)]
pub struct Media(Id, Dev);
impl PlatformItem for Media {}

pub fn ice_text(c: &signaling::IceCandidate) -> String {
    if let Some(a) = c.removed_address() { format!("-{a}") } else { c.v3_sdp().unwrap_or_else(|| "?".into()) }
}

impl Platform for P {
    type AppIncomingMedia = Media;
    type AppRemotePeer = Peer;
    type AppConnection = RffiPeerConnection;
    type AppCallContext = Ctx;

    fn create_connection(
        &mut self, call: &Call<Self>, remote_device: DeviceId, connection_type: ConnectionType,
        _version: signaling::Version, call_config: CallConfig, levels: Option<Duration>,
    ) -> Result<Connection<Self>> {
        let id = call.call_id().as_u64();
        self.0.fault("create_connection")?;
        self.0.put(Ev::Conn { id, dev: remote_device, kind: format!("{connection_type:?}") });
        let pc = Box::new(RffiPeerConnection::new());
        let w: Weak<World> = Arc::downgrade(&self.0);
        pc.set_rtp_packet_sink(Box::new(move |header, payload| {
            if let Some(w) = w.upgrade() {
                let m = protobuf::rtp_data::Message::decode(payload).expect("sent RTP data decodes");
                w.put(Ev::Rtp { id, dev: remote_device, msg: rtp_text(&m) });
                w.rtp.lock().unwrap().push((id, remote_device, header, payload.to_vec()));
            }
        }));
        let connection = Connection::new(call.clone(), remote_device, connection_type, call_config, levels, None)?;
        connection.set_app_connection((*pc).clone())?;
        let arc = unsafe { webrtc::Arc::from_borrowed(webrtc::ptr::BorrowedRc::from_ptr(&*pc as *const _)) };
        self.0.pcs.lock().unwrap().insert((id, remote_device), pc);
        connection.set_peer_connection(PeerConnection::new(arc, None, None))?;
        Ok(connection)
    }
    fn on_start_call(&self, p: &Peer, id: CallId, d: CallDirection, m: CallMediaType) -> Result<()> {
        self.0.fault("on_start_call")?;
        self.0.put(Ev::Start { peer: p.0, id: id.as_u64(), outgoing: d == CallDirection::Outgoing, video: m == CallMediaType::Video });
        Ok(())
    }
    fn on_event(&self, p: &Peer, id: CallId, e: ApplicationEvent) -> Result<()> {
        self.0.put(Ev::Event { peer: p.0, id: id.as_u64(), event: format!("{e:?}") });
        self.0.fault("on_event")
    }
    fn on_network_route_changed(&self, p: &Peer, _r: NetworkRoute) -> Result<()> {
        self.0.put(Ev::Route { peer: p.0 });
        Ok(())
    }
    fn on_audio_levels(&self, p: &Peer, _c: AudioLevel, _r: AudioLevel) -> Result<()> {
        self.0.put(Ev::Levels { peer: p.0 });
        Ok(())
    }
    fn on_low_bandwidth_for_video(&self, p: &Peer, recovered: bool) -> Result<()> {
        self.0.put(Ev::LowBandwidth { peer: p.0, recovered });
        Ok(())
    }
    fn on_send_offer(&self, p: &Peer, id: CallId, o: signaling::Offer) -> Result<()> {
        self.0.refuse(id, "on_send_offer")?;
        self.0.put(Ev::Offer { peer: p.0, id: id.as_u64() });
        self.0.offers.lock().unwrap().insert(id.as_u64(), o);
        Ok(())
    }
    fn on_send_answer(&self, p: &Peer, id: CallId, s: signaling::SendAnswer) -> Result<()> {
        self.0.refuse(id, "on_send_answer")?;
        self.0.put(Ev::Answer { peer: p.0, id: id.as_u64(), dev: s.receiver_device_id });
        self.0.answers.lock().unwrap().insert((id.as_u64(), s.receiver_device_id), s.answer);
        Ok(())
    }
    fn on_send_ice(&self, p: &Peer, id: CallId, s: signaling::SendIce) -> Result<()> {
        self.0.refuse(id, "on_send_ice")?;
        self.0.put(Ev::Ice { peer: p.0, id: id.as_u64(), dev: s.receiver_device_id, what: s.ice.candidates.iter().map(ice_text).collect() });
        self.0.ice.lock().unwrap().push((id.as_u64(), s.receiver_device_id, s.ice));
        Ok(())
    }
    fn on_send_hangup(&self, p: &Peer, id: CallId, s: signaling::SendHangup) -> Result<()> {
        self.0.refuse(id, "on_send_hangup")?;
        self.0.put(Ev::Hangup { peer: p.0, id: id.as_u64(), hangup: format!("{:?}", s.hangup) });
        self.0.hangups.lock().unwrap().push(s.hangup);
        Ok(())
    }
    fn on_send_busy(&self, p: &Peer, id: CallId) -> Result<()> {
        self.0.refuse(id, "on_send_busy")?;
        self.0.put(Ev::Busy { peer: p.0, id: id.as_u64() });
        Ok(())
    }
    fn send_call_message(&self, to: Vec<u8>, message: Vec<u8>, _u: group_call::SignalingMessageUrgency) -> Result<()> {
        self.0.put(Ev::CallMessage { to, message });
        Ok(())
    }
    fn send_call_message_to_group(&self, to: Vec<u8>, message: Vec<u8>, _u: group_call::SignalingMessageUrgency, _r: HashSet<UserId>) -> Result<()> {
        self.0.put(Ev::CallMessage { to, message });
        Ok(())
    }
    fn send_call_message_to_adhoc_group(&self, message: Vec<u8>, _u: group_call::SignalingMessageUrgency, _e: u64, _r: HashMap<UserId, Vec<u8>>) -> Result<()> {
        self.0.put(Ev::CallMessage { to: vec![], message });
        Ok(())
    }
    fn create_incoming_media(&self, c: &Connection<Self>, _m: MediaStream) -> Result<Media> {
        let m = Media(c.call_id().as_u64(), c.remote_device_id());
        self.0.put(Ev::MediaCreated { id: m.0, dev: m.1 });
        Ok(m)
    }
    fn connect_incoming_media(&self, p: &Peer, ctx: &Ctx, m: &Media) -> Result<()> {
        self.0.put(Ev::MediaConnected { peer: p.0, id: m.0, dev: m.1, ctx: ctx.0 });
        Ok(())
    }
    fn disconnect_incoming_media(&self, ctx: &Ctx) -> Result<()> {
        self.0.put(Ev::MediaDisconnected { ctx: ctx.0 });
        Ok(())
    }
    fn compare_remotes(&self, a: &Peer, b: &Peer) -> Result<bool> {
        Ok(a.0 == b.0)
    }
    fn on_offer_expired(&self, p: &Peer, id: CallId, _age: Duration) -> Result<()> {
        self.0.put(Ev::OfferExpired { peer: p.0, id: id.as_u64() });
        Ok(())
    }
    fn on_call_ended(&self, p: &Peer, id: CallId, reason: CallEndReason, _s: CallSummary) -> Result<()> {
        self.0.put(Ev::Ended { peer: p.0, id: id.as_u64(), reason: format!("{reason:?}") });
        Ok(())
    }
    fn on_call_concluded(&self, p: &Peer, id: CallId) -> Result<()> {
        self.0.put(Ev::Concluded { peer: p.0, id: id.as_u64() });
        Ok(())
    }
    fn group_call_ring_update(&self, group: group_call::GroupId, ring: group_call::RingId, sender: UserId, update: group_call::RingUpdate) {
        self.0.put(Ev::Ring { group, ring: ring.into(), sender, update: format!("{update:?}") });
    }
    fn request_membership_proof(&self, _c: group_call::ClientId) {}
    fn request_group_members(&self, _c: group_call::ClientId) {}
    fn handle_connection_state_changed(&self, _c: group_call::ClientId, _s: group_call::ConnectionState) {}
    fn handle_network_route_changed(&self, _c: group_call::ClientId, _r: NetworkRoute) {}
    fn handle_join_state_changed(&self, _c: group_call::ClientId, _j: group_call::JoinState) {}
    fn handle_remote_devices_changed(&self, _c: group_call::ClientId, _s: &[group_call::RemoteDeviceState], _r: group_call::RemoteDevicesChangedReason) {}
    fn handle_incoming_video_track(&self, _c: group_call::ClientId, _d: DemuxId, _t: VideoTrack) {}
    fn handle_peek_changed(&self, _c: group_call::ClientId, _p: &PeekInfo, _j: &HashSet<UserId>) {}
    fn handle_speaking_notification(&self, _c: group_call::ClientId, _e: group_call::SpeechEvent) {}
    fn handle_audio_levels(&self, _c: group_call::ClientId, _l: AudioLevel, _r: Vec<ReceivedAudioLevel>) {}
    fn handle_reactions(&self, _c: group_call::ClientId, _r: Vec<group_call::Reaction>) {}
    fn handle_raised_hands(&self, _c: group_call::ClientId, _r: Vec<DemuxId>) {}
    fn handle_ended(&self, _c: group_call::ClientId, _r: CallEndReason, _s: CallSummary) {}
    fn handle_remote_mute_request(&self, _c: group_call::ClientId, _m: DemuxId) {}
    fn handle_observed_remote_mute(&self, _c: group_call::ClientId, _s: DemuxId, _t: DemuxId) {}
}
impl sfu::Delegate for P {
    fn handle_peek_result(&self, request_id: u32, _r: PeekResult) {
        self.0.put(Ev::Peek(request_id));
    }
}
struct Http(Weak<World>);
impl http::Delegate for Http {
    fn send_request(&self, request_id: u32, _request: http::Request) {
        if let Some(w) = self.0.upgrade() { w.put(Ev::Http(request_id)); }
    }
}

/// One client: a real call manager and what was seen of it.
pub struct Client {
    pub w: Arc<World>,
    pub cm: CallManager<P>,
    pub seen: usize,
    next_ctx: u32,
}
pub fn parameters(tag: u8) -> protobuf::signaling::ConnectionParametersV4 {
    let mut key = [tag; 32];
    key[0] = 9;
    protobuf::signaling::ConnectionParametersV4 { public_key: Some(key.to_vec()), ..Default::default() }
}
pub fn candidate(n: u32) -> signaling::IceCandidate {
    signaling::IceCandidate::from_v3_sdp(format!("c{n}")).unwrap()
}
impl Client {
    pub fn new() -> Client {
        let w = Arc::new(World::default());
        let http = http::DelegatingClient::new(Http(Arc::downgrade(&w)));
        let cm = CallManager::new(P(w.clone()), http).expect("call manager");
        Client { w, cm, seen: 0, next_ctx: 0 }
    }
    /// What was recorded since the last look.
    pub fn fresh(&mut self) -> Vec<Ev> {
        let l = self.w.log.lock().unwrap();
        let v = l[self.seen..].to_vec();
        self.seen = l.len();
        v
    }
    pub fn call(&mut self, peer: u8, id: Id, dev: Dev) {
        self.cm.create_outgoing_call(Peer(peer), CallId::new(id), CallMediaType::Audio, dev).unwrap();
    }
    pub fn proceed(&mut self, id: Id) {
        self.next_ctx += 1;
        self.cm.proceed(CallId::new(id), Ctx(id as u32), CallConfig::default(), None).unwrap();
    }
    pub fn received_offer(&mut self, peer: u8, id: Id, from: Dev, local: Dev, age: Duration, offer: signaling::Offer) {
        self.cm.received_offer(Peer(peer), CallId::new(id), signaling::ReceivedOffer {
            offer, age, sender_device_id: from, receiver_device_id: local,
            sender_identity_key: vec![1], receiver_identity_key: vec![2],
        }).unwrap();
    }
    pub fn received_answer(&mut self, peer: u8, id: Id, from: Dev, answer: signaling::Answer) {
        self.cm.received_answer(Peer(peer), CallId::new(id), signaling::ReceivedAnswer {
            answer, sender_device_id: from, sender_identity_key: vec![2], receiver_identity_key: vec![1],
        }).unwrap();
    }
    pub fn received_ice(&mut self, peer: u8, id: Id, from: Dev, candidates: Vec<signaling::IceCandidate>) {
        self.cm.received_ice(Peer(peer), CallId::new(id), signaling::ReceivedIce { ice: signaling::Ice { candidates }, sender_device_id: from }).unwrap();
    }
    pub fn received_hangup(&mut self, peer: u8, id: Id, from: Dev, hangup: signaling::Hangup) {
        self.cm.received_hangup(Peer(peer), CallId::new(id), signaling::ReceivedHangup { hangup, sender_device_id: from }).unwrap();
    }
    pub fn received_busy(&mut self, peer: u8, id: Id, from: Dev) {
        self.cm.received_busy(Peer(peer), CallId::new(id), signaling::ReceivedBusy { sender_device_id: from }).unwrap();
    }
    /// The connection to a device of the active call (0 = the parent connection).
    pub fn conn(&self, dev: Dev) -> Option<Connection<P>> {
        let call = self.cm.active_call().ok()?;
        if dev == 0 {
            self.w.pc(call.call_id().as_u64(), 0)?;
            return call.get_parent_connection().ok();
        }
        call.get_connection(dev).ok()
    }
    pub fn rtp(&self, c: &mut Connection<P>, timestamp: u32, m: &protobuf::rtp_data::Message) {
        let header = webrtc::rtp::Header { pt: 101, ssrc: 0xD, seqnum: timestamp as u16, timestamp };
        c.handle_rtp_received(header, &m.encode_to_vec());
    }
    pub fn active(&self) -> Option<Id> {
        self.cm.active_call().ok().map(|c| c.call_id().as_u64())
    }
    /// Ends the client and everything it runs.
    pub fn close(mut self) {
        let _ = self.cm.reset();
        mc::quiesce();
        let _ = self.cm.close();
    }
}
pub fn offer(tag: u8, video: bool) -> signaling::Offer {
    signaling::Offer::from_v4(if video { CallMediaType::Video } else { CallMediaType::Audio }, parameters(tag)).unwrap()
}
pub fn answer(tag: u8) -> signaling::Answer {
    signaling::Answer::from_v4(parameters(tag)).unwrap()
}
pub fn offer_with(tag: u8, rate: Option<u64>) -> signaling::Offer {
    signaling::Offer::from_v4(CallMediaType::Audio, protobuf::signaling::ConnectionParametersV4 { max_bitrate_bps: rate, ..parameters(tag) }).unwrap()
}
pub fn answer_with(tag: u8, rate: Option<u64>) -> signaling::Answer {
    signaling::Answer::from_v4(protobuf::signaling::ConnectionParametersV4 { max_bitrate_bps: rate, ..parameters(tag) }).unwrap()
}
