//
// Copyright 2019-2021 Signal Messenger, LLC
// SPDX-License-Identifier: AGPL-3.0-only
//

use std::{ffi::CString, os::raw::c_char, ptr::copy_nonoverlapping};

use crate::{
    webrtc,
    webrtc::{
        peer_connection_factory::{
            RffiAudioConfig, RffiAudioJitterBufferConfig, RffiIceServers, RffiPeerConnectionKind,
        },
        sim::{
            media::{
                FAKE_AUDIO_TRACK, FAKE_VIDEO_SOURCE, FAKE_VIDEO_TRACK, RffiAudioTrack,
                RffiVideoSource, RffiVideoTrack,
            },
            peer_connection::RffiPeerConnection,
            peer_connection_observer::RffiPeerConnectionObserver,
        },
    },
};

/// Stand-in for webrtc/sim/peer_connection_factory.rs: the same, except that an outgoing audio track
/// that is not the fake one is the place where the new peer connection and its observer are left.
#[repr(C)]
#[derive(Default)]
pub struct Slot {
    pub pc: std::sync::atomic::AtomicUsize,
    pub observer: std::sync::atomic::AtomicUsize,
}

pub type RffiPeerConnectionFactoryOwner = u32;

impl webrtc::RefCounted for RffiPeerConnectionFactoryOwner {}

pub static FAKE_PEER_CONNECTION_FACTORY: RffiPeerConnectionFactoryOwner = 10;

/// Where the next injectable network is: null unless a harness says otherwise.
#[cfg(feature = "injectable_network")]
pub static INJECTABLE_NETWORK: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);

#[cfg(feature = "injectable_network")]
#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_getInjectableNetwork(
    _factory: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryOwner>,
) -> webrtc::ptr::Borrowed<crate::webrtc::injectable_network::RffiInjectableNetwork> {
    let at = INJECTABLE_NETWORK.load(core::sync::atomic::Ordering::SeqCst);
    webrtc::ptr::Borrowed::from_ptr(at as *const _)
}

pub type RffiPeerConnectionFactoryInterface = u32;

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createPeerConnectionFactory(
    _audio_config: webrtc::ptr::Borrowed<RffiAudioConfig>,
    _use_injectable_network: bool,
    _field_trials_string: *const c_char,
) -> webrtc::ptr::OwnedRc<RffiPeerConnectionFactoryOwner> {
    info!("Rust_createPeerConnectionFactory()");
    unsafe { webrtc::ptr::OwnedRc::from_ptr(&FAKE_PEER_CONNECTION_FACTORY) }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createPeerConnectionFactoryWrapper(
    _interface: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryInterface>,
) -> webrtc::ptr::OwnedRc<RffiPeerConnectionFactoryOwner> {
    panic!("no interface to wrap in sim!")
}

/// A `fn(kind, jitter buffer configuration, report interval, ICE servers)` told of every peer connection, or 0.
pub static LISTENER: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);

pub fn listen(f: fn(u8, usize, i32, usize)) {
    LISTENER.store(f as usize, core::sync::atomic::Ordering::SeqCst);
}

#[allow(non_snake_case, clippy::missing_safety_doc, clippy::too_many_arguments)]
pub unsafe fn Rust_createPeerConnection(
    _factory: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryOwner>,
    observer: webrtc::ptr::Borrowed<RffiPeerConnectionObserver>,
    kind: RffiPeerConnectionKind,
    audio_jitter_buffer_config: webrtc::ptr::Borrowed<RffiAudioJitterBufferConfig>,
    audio_rtcp_report_interval_ms: i32,
    ice_servers: webrtc::ptr::Borrowed<RffiIceServers>,
    outgoing_audio_track: webrtc::ptr::BorrowedRc<RffiAudioTrack>,
    _outgoing_video_track: webrtc::ptr::BorrowedRc<RffiVideoTrack>,
) -> webrtc::ptr::OwnedRc<RffiPeerConnection> {
    info!("Rust_createPeerConnection()");
    let f = LISTENER.load(core::sync::atomic::Ordering::SeqCst);
    if f != 0 {
        let f: fn(u8, usize, i32, usize) = unsafe { std::mem::transmute(f) };
        f(kind as u8, audio_jitter_buffer_config.as_ptr() as usize, audio_rtcp_report_interval_ms, ice_servers.as_ptr() as usize);
    }
    let pc: *const RffiPeerConnection = Box::leak(Box::new(RffiPeerConnection::new()));
    let track = outgoing_audio_track.as_ptr();
    if !track.is_null() && !std::ptr::eq(track, &FAKE_AUDIO_TRACK) {
        let slot = unsafe { &*(track as *const Slot) };
        slot.pc.store(pc as usize, std::sync::atomic::Ordering::SeqCst);
        slot.observer.store(observer.as_ptr() as usize, std::sync::atomic::Ordering::SeqCst);
    }
    unsafe { webrtc::ptr::OwnedRc::from_ptr(pc) }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createAudioTrack(
    _factory: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryOwner>,
) -> webrtc::ptr::OwnedRc<RffiAudioTrack> {
    info!("Rust_createVideoSource()");
    unsafe { webrtc::ptr::OwnedRc::from_ptr(&FAKE_AUDIO_TRACK) }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createVideoSource() -> webrtc::ptr::OwnedRc<RffiVideoSource> {
    info!("Rust_createVideoSource()");
    unsafe { webrtc::ptr::OwnedRc::from_ptr(&FAKE_VIDEO_SOURCE) }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createVideoTrack(
    _factory: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryOwner>,
    _source: webrtc::ptr::BorrowedRc<RffiVideoSource>,
) -> webrtc::ptr::OwnedRc<RffiVideoTrack> {
    info!("Rust_createVideoTrack()");
    unsafe { webrtc::ptr::OwnedRc::from_ptr(&FAKE_VIDEO_TRACK) }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_getAudioPlayoutDevices(
    _factory: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryOwner>,
) -> i16 {
    1
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_getAudioPlayoutDeviceName(
    _factory: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryOwner>,
    index: u16,
    name_out: *mut c_char,
    uuid_out: *mut c_char,
) -> i32 {
    if index != 0 {
        return -1;
    }
    unsafe {
        copy_to_c_buffer("FakeSpeaker", name_out);
        copy_to_c_buffer("FakeSpeakerUuid", uuid_out);
    }
    0
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setAudioPlayoutDevice(
    _factory: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryOwner>,
    index: u16,
) -> bool {
    index == 0
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_getAudioRecordingDevices(
    _factory: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryOwner>,
) -> i16 {
    1
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_getAudioRecordingDeviceName(
    _factory: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryOwner>,
    index: u16,
    name_out: *mut c_char,
    uuid_out: *mut c_char,
) -> i32 {
    if index != 0 {
        return -1;
    }
    unsafe {
        copy_to_c_buffer("FakeMicrophone", name_out);
        copy_to_c_buffer("FakeMicrophoneUuid", uuid_out);
    }
    0
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setAudioRecordingDevice(
    _factory: webrtc::ptr::BorrowedRc<RffiPeerConnectionFactoryOwner>,
    index: u16,
) -> bool {
    index == 0
}

unsafe fn copy_to_c_buffer(string: &str, dest: *mut c_char) {
    let bytes = CString::new(string).unwrap();
    unsafe { copy_nonoverlapping(bytes.as_ptr(), dest, string.len() + 1) }
}
