//
// Copyright 2019-2021 Signal Messenger, LLC
// SPDX-License-Identifier: AGPL-3.0-only
//

//! WebRTC Simulation Peer Connection Interface
//!
//! Stand-in for webrtc/sim/peer_connection.rs: the same, and in addition it remembers what it was
//! told (`Told`) and lets a harness choose what it measures.

use std::{
    net::SocketAddr,
    os::raw::c_char,
    sync::{Arc, Mutex},
};

use prost::Message;

use crate::{
    core::platform::PlatformItem,
    webrtc,
    webrtc::{
        media::{RffiAudioDecoderConfig, RffiAudioEncoderConfig},
        network::RffiIpPort,
        peer_connection::{RffiAudioLevel, RffiReceivedAudioLevel},
        rtp,
        rtp_observer::RffiRtpObserver,
        sdp_observer::{
            RffiCreateSessionDescriptionObserver, RffiSessionDescription,
            RffiSetSessionDescriptionObserver,
        },
        sim::ice_gatherer::{FAKE_ICE_GATHERER, RffiIceGatherer},
        stats_observer::RffiStatsObserver,
    },
};

/// What a peer connection was last told, and what it measures.
#[derive(Clone, Debug)]
pub struct Told {
    pub rates: Option<(i32, i32, i32)>,
    pub transceivers: Vec<u32>,
    pub outgoing: Option<bool>,
    pub recording: Option<bool>,
    pub playout: Option<bool>,
    pub incoming: Option<bool>,
    pub closed: u32,
    pub servers: u32,
    pub receives_rtp: bool,
    pub encoders: u32,
    pub rtp_observer: usize,
    pub captured_level: u16,
    pub bandwidth: u32,
    /// Descriptions set, remote ones or not, and where they are.
    pub descriptions: Vec<(bool, usize)>,
}

/// Simulation type for PeerConnection.
#[derive(Clone)]
pub struct RffiPeerConnection {
    state: Arc<Mutex<RffiPeerConnectionState>>,
}

impl Default for RffiPeerConnection {
    fn default() -> Self {
        Self::new()
    }
}

pub struct RffiIp;

impl From<std::net::IpAddr> for RffiIp {
    fn from(_ip: std::net::IpAddr) -> RffiIp {
        RffiIp
    }
}

impl PlatformItem for RffiPeerConnection {}

impl webrtc::RefCounted for RffiPeerConnection {}

impl RffiPeerConnection {
    pub fn new() -> Self {
        Self {
            state: Arc::new(Mutex::new(RffiPeerConnectionState {
                local_description_set: false,
                remote_description_set: false,
                outgoing_audio_enabled: false,
                rtp_packet_sink: None,
                removed_ice_candidates: vec![],
                max_bitrate_bps: None,
                last_sent_rtp_data: None,
                told: Told {
                    rates: None,
                    transceivers: vec![],
                    outgoing: None,
                    recording: None,
                    playout: None,
                    incoming: None,
                    closed: 0,
                    servers: 0,
                    receives_rtp: false,
                    encoders: 0,
                    rtp_observer: 0,
                    captured_level: 0,
                    bandwidth: 0,
                    descriptions: vec![],
                },
            })),
        }
    }

    fn set_local_description(&self) {
        let mut state = self.state.lock().unwrap();
        state.local_description_set = true;
    }

    fn set_remote_description(&self) {
        let mut state = self.state.lock().unwrap();
        state.remote_description_set = true;
    }

    fn set_outgoing_media_enabled(&self, enabled: bool) {
        let mut state = self.state.lock().unwrap();
        if enabled && !(state.local_description_set && state.remote_description_set) {
            panic!("Can't Rust_setOutgoingMediaEnabled if you haven't received an answer yet.");
        }
        state.outgoing_audio_enabled = enabled;
    }

    pub fn outgoing_audio_enabled(&self) -> bool {
        let state = self.state.lock().unwrap();
        state.outgoing_audio_enabled
    }

    fn set_incoming_media_enabled(&self, _enabled: bool) {
        let _state = self.state.lock().unwrap();
        // Do nothing; the sim implementation doesn't use this.
    }

    pub fn set_rtp_packet_sink(&self, rtp_packet_sink: BoxedRtpPacketSink) {
        let mut state = self.state.lock().unwrap();
        state.rtp_packet_sink = Some(rtp_packet_sink);
    }

    fn remove_ice_candidates(&self, removed_addresses: impl Iterator<Item = SocketAddr>) {
        self.state
            .lock()
            .unwrap()
            .removed_ice_candidates
            .extend(removed_addresses);
    }

    pub fn removed_ice_candidates(&self) -> Vec<SocketAddr> {
        let state = self.state.lock().unwrap();
        state.removed_ice_candidates.clone()
    }

    pub fn max_bitrate_bps(&self) -> Option<i32> {
        let state = self.state.lock().unwrap();
        state.max_bitrate_bps
    }

    pub fn last_sent_rtp_message(&self) -> Option<crate::protobuf::rtp_data::Message> {
        let state = self.state.lock().unwrap();
        Some(
            crate::protobuf::rtp_data::Message::decode(state.last_sent_rtp_data.as_deref()?)
                .unwrap(),
        )
    }

    pub fn last_sent_max_bitrate_bps(&self) -> Option<u64> {
        self.last_sent_rtp_message()?
            .receiver_status?
            .max_bitrate_bps
    }
}

pub type BoxedRtpPacketSink = Box<dyn Fn(rtp::Header, &[u8]) + Send + 'static>;

struct RffiPeerConnectionState {
    local_description_set: bool,
    remote_description_set: bool,
    outgoing_audio_enabled: bool,
    rtp_packet_sink: Option<BoxedRtpPacketSink>,
    removed_ice_candidates: Vec<SocketAddr>,
    max_bitrate_bps: Option<i32>,
    last_sent_rtp_data: Option<Vec<u8>>,
    told: Told,
}

unsafe fn tell(pc: webrtc::ptr::BorrowedRc<RffiPeerConnection>, f: impl FnOnce(&mut Told)) {
    unsafe { f(&mut (*pc.as_ptr()).state.lock().unwrap().told) }
}
fn borrowed(pc: &RffiPeerConnection) -> webrtc::ptr::BorrowedRc<RffiPeerConnection> {
    webrtc::ptr::BorrowedRc::from_ptr(pc)
}
impl RffiPeerConnection {
    pub fn told(&self) -> Told {
        self.state.lock().unwrap().told.clone()
    }
    pub fn measure(&self, f: impl FnOnce(&mut Told)) {
        unsafe { tell(borrowed(self), f) }
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_updateTransceivers(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _remote_demux_ids_data: webrtc::ptr::Borrowed<u32>,
    _remote_demux_ids_len: usize,
) -> bool {
    unsafe { tell(peer_connection, |t| t.transceivers = if _remote_demux_ids_len == 0 { vec![] } else { std::slice::from_raw_parts(_remote_demux_ids_data.as_ptr(), _remote_demux_ids_len).to_vec() }) };
    info!("Rust_updateTransceivers():");
    true
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createOffer(
    _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _csd_observer: webrtc::ptr::BorrowedRc<RffiCreateSessionDescriptionObserver>,
) {
    info!("Rust_createOffer():");
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createSendOnlyTransceiver(
    _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
) -> bool {
    info!("Rust_createSendOnlyTransceiver():");
    true
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setLocalDescription(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _ssd_observer: webrtc::ptr::BorrowedRc<RffiSetSessionDescriptionObserver>,
    local_desc: webrtc::ptr::Owned<RffiSessionDescription>,
) {
    unsafe { tell(peer_connection, |t| t.descriptions.push((false, local_desc.as_ptr() as usize))) };
    info!("Rust_setLocalDescription():");
    unsafe {
        (*peer_connection.as_ptr()).set_local_description();
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createAnswer(
    _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _csd_observer: webrtc::ptr::BorrowedRc<RffiCreateSessionDescriptionObserver>,
) {
    info!("Rust_createAnswer():");
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setRemoteDescription(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _ssd_observer: webrtc::ptr::BorrowedRc<RffiSetSessionDescriptionObserver>,
    remote_desc: webrtc::ptr::Owned<RffiSessionDescription>,
) {
    unsafe { tell(peer_connection, |t| t.descriptions.push((true, remote_desc.as_ptr() as usize))) };
    info!("Rust_setRemoteDescription():");
    unsafe {
        (*peer_connection.as_ptr()).set_remote_description();
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setOutgoingMediaEnabled(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    enabled: bool,
) {
    unsafe { tell(peer_connection, |t| t.outgoing = Some(enabled)) };
    info!("Rust_setOutgoingMediaEnabled({})", enabled);
    unsafe {
        (*peer_connection.as_ptr()).set_outgoing_media_enabled(enabled);
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setIncomingMediaEnabled(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    enabled: bool,
) -> bool {
    unsafe { tell(peer_connection, |t| t.incoming = Some(enabled)) };
    info!("Rust_setIncomingMediaEnabled({})", enabled);
    unsafe {
        (*peer_connection.as_ptr()).set_incoming_media_enabled(enabled);
    }
    true
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setAudioPlayoutEnabled(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    enabled: bool,
) {
    unsafe { tell(peer_connection, |t| t.playout = Some(enabled)) };
    info!("Rust_setAudioPlayoutEnabled:");
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setAudioRecordingEnabled(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    enabled: bool,
) {
    unsafe { tell(peer_connection, |t| t.recording = Some(enabled)) };
    info!("Rust_setAudioRecordingEnabled:");
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_addIceCandidateFromSdp(
    _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _sdp: webrtc::ptr::Borrowed<c_char>,
) -> bool {
    info!("Rust_addIceCandidateFromSdp():");
    true
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_addIceCandidateFromServer(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _ip: RffiIp,
    _port: u16,
    _tcp: bool,
    _hostname: webrtc::ptr::Borrowed<c_char>,
) -> bool {
    unsafe { tell(peer_connection, |t| t.servers += 1) };
    info!("Rust_addIceCandidateFromServer():");
    true
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_removeIceCandidates(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    removed_addresses_data: webrtc::ptr::Borrowed<RffiIpPort>,
    removed_addresses_len: usize,
) -> bool {
    info!("Rust_removeIceCandidates():");
    unsafe {
        let removed_addresses =
            std::slice::from_raw_parts(removed_addresses_data.as_ptr(), removed_addresses_len)
                .iter()
                .map(|ip_port| ip_port.into());
        (*peer_connection.as_ptr()).remove_ice_candidates(removed_addresses);
    }
    true
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createSharedIceGatherer(
    _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
) -> webrtc::ptr::OwnedRc<RffiIceGatherer> {
    info!("Rust_createSharedIceGatherer:");
    unsafe { webrtc::ptr::OwnedRc::from_ptr(&FAKE_ICE_GATHERER) }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_useSharedIceGatherer(
    _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _ice_gatherer: webrtc::ptr::BorrowedRc<RffiIceGatherer>,
) -> bool {
    info!("Rust_useSharedIceGatherer:");
    true
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_getStats(
    _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _stats_observer: webrtc::ptr::BorrowedRc<RffiStatsObserver>,
) {
    info!("Rust_getStats:");
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setSendBitrates(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    min_bitrate_bps: i32,
    start_bitrate_bps: i32,
    max_bitrate_bps: i32,
) {
    unsafe { tell(peer_connection, |t| t.rates = Some((min_bitrate_bps, start_bitrate_bps, max_bitrate_bps))) };
    let mut state = unsafe { (*peer_connection.as_ptr()).state.lock().unwrap() };
    state.max_bitrate_bps = Some(max_bitrate_bps);
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_sendRtp(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    pt: rtp::PayloadType,
    seqnum: rtp::SequenceNumber,
    timestamp: rtp::Timestamp,
    ssrc: rtp::Ssrc,
    payload_data: webrtc::ptr::Borrowed<u8>,
    payload_size: usize,
) -> bool {
    info!("Rust_sendRtp:");
    let mut state = unsafe { (*peer_connection.as_ptr()).state.lock().unwrap() };
    let payload = unsafe { std::slice::from_raw_parts(payload_data.as_ptr(), payload_size) };
    state.last_sent_rtp_data = Some(payload.to_vec());
    if let Some(rtp_packet_sink) = &state.rtp_packet_sink {
        let header = rtp::Header {
            pt,
            seqnum,
            timestamp,
            ssrc,
        };
        rtp_packet_sink(header, payload);
    }
    true
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_receiveRtp(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _pt: rtp::PayloadType,
    _enable_incoming: bool,
) -> bool {
    unsafe { tell(peer_connection, |t| t.receives_rtp = _enable_incoming) };
    info!("Rust_receiveRtp:");
    true
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_configureAudioEncoders(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _config: webrtc::ptr::Borrowed<RffiAudioEncoderConfig>,
) {
    unsafe { tell(peer_connection, |t| t.encoders += 1) };
    info!("Rust_configureAudioEncoders:");
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_configureAudioDecoders(
    _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _config: webrtc::ptr::Borrowed<RffiAudioDecoderConfig>,
) {
    info!("Rust_configureAudioDecoders:");
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub fn Rust_getAudioLevels(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    mut captured_out: webrtc::ptr::Borrowed<RffiAudioLevel>,
    _received_out: webrtc::ptr::Borrowed<RffiReceivedAudioLevel>,
    _received_out_size: usize,
    mut received_size_out: webrtc::ptr::Borrowed<usize>,
) {
    let mut level = 0;
    unsafe { tell(peer_connection, |t| level = t.captured_level) };
    info!("Rust_getAudioLevels:");
    unsafe {
        if let Some(captured_out) = captured_out.as_mut() {
            *captured_out = level;
        }
        if let Some(received_size_out) = received_size_out.as_mut() {
            *received_size_out = 0;
        }
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_getLastBandwidthEstimateBps(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
) -> u32 {
    let mut bandwidth = 0;
    unsafe { tell(peer_connection, |t| bandwidth = t.bandwidth) };
    bandwidth
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setRtpPacketObserver(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
    _rtp_observer: webrtc::ptr::Borrowed<RffiRtpObserver>,
) {
    unsafe { tell(peer_connection, |t| t.rtp_observer = _rtp_observer.as_ptr() as usize) };
    info!("Rust_setRtpPacketObserver");
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_closePeerConnection(
    peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
) {
    unsafe { tell(peer_connection, |t| t.closed += 1) };
    info!("Rust_closePeerConnection:");
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_regatherOnAllNetworks(
    _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
) {
    info!("Rust_regatherOnAllNetworks:");
}
