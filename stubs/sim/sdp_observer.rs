//
// Copyright 2019-2021 Signal Messenger, LLC
// SPDX-License-Identifier: AGPL-3.0-only
//

//! Stand-in for webrtc/sim/sdp_observer.rs: the same, unless a harness listens and answers for WebRTC.

use std::{ffi::CString, os::raw::c_char, ptr::addr_of};

use libc::{size_t, strdup};

use crate::{
    webrtc,
    webrtc::sdp_observer::{
        CreateSessionDescriptionObserver, CreateSessionDescriptionObserverCallbacks,
        RffiConnectionParametersV4, RffiSrtpKey, SetSessionDescriptionObserver,
        SetSessionDescriptionObserverCallbacks, SrtpCryptoSuite,
    },
};

/// What WebRTC was asked.
pub enum Event<'a> {
    /// A set (or create) observer with its callbacks: 0 leaves it to the harness, anything else is the
    /// description with which it succeeds at once.
    Observer { set: bool, observer: usize, callbacks: usize },
    ToSdp { description: usize },
    Srtp { description: usize, suite: SrtpCryptoSuite, key: &'a [u8], salt: &'a [u8] },
    ToV4 { description: usize, legacy: bool, vp9_encode: bool, vp9_decode: bool },
    DeleteV4 { v4: usize },
    FromV4 { offer: bool, v4: &'a RffiConnectionParametersV4, legacy: bool, tcc_audio: bool, vp9_encode: bool, vp9_decode: bool, is_local: bool },
    Group { remote: bool, ufrag: *const c_char, pwd: *const c_char, key: usize, demux_id: u32, others: &'a [u32] },
    Delete { description: usize },
}

/// A `fn(&Event) -> usize` that answers for WebRTC, or 0.
pub static LISTENER: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);

pub fn listen(f: fn(&Event) -> usize) {
    LISTENER.store(f as usize, core::sync::atomic::Ordering::SeqCst);
}
fn tell(event: Event) -> Option<usize> {
    let f = LISTENER.load(core::sync::atomic::Ordering::SeqCst);
    (f != 0).then(|| {
        let f: fn(&Event) -> usize = unsafe { std::mem::transmute(f) };
        f(&event)
    })
}
unsafe fn bytes<'a>(p: webrtc::ptr::Borrowed<u8>, n: size_t) -> &'a [u8] {
    if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p.as_ptr(), n) } }
}
unsafe fn ids<'a>(p: webrtc::ptr::Borrowed<u32>, n: size_t) -> &'a [u32] {
    if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p.as_ptr(), n) } }
}
fn owned<T>(at: usize) -> webrtc::ptr::Owned<T> {
    unsafe { webrtc::ptr::Owned::from_ptr(at as *const T) }
}

/// Simulation type for SessionDescription.
pub type RffiSessionDescription = &'static str;

static mut FAKE_SDP: &str = "FAKE SDP";
static mut FAKE_SDP_OFFER: &str = "FAKE SDP OFFER";
static mut FAKE_SDP_ANSWER: &str = "FAKE SDP ANSWER";

/// Simulation type for webrtc::rffi::CreateSessionDescriptionObserverRffi
pub type RffiCreateSessionDescriptionObserver = u32;

static FAKE_CSD_OBSERVER: u32 = 13;

/// Simulation type for webrtc::rffi::SetSessionDescriptionObserverRffi
pub type RffiSetSessionDescriptionObserver = u32;

static FAKE_SSD_OBSERVER: u32 = 15;

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createSetSessionDescriptionObserver(
    ssd_observer: webrtc::ptr::Borrowed<std::ffi::c_void>,
    callbacks: webrtc::ptr::Borrowed<std::ffi::c_void>,
) -> webrtc::ptr::OwnedRc<RffiSetSessionDescriptionObserver> {
    let (observer, cb) = (ssd_observer.as_ptr() as usize, callbacks.as_ptr() as usize);
    if tell(Event::Observer { set: true, observer, callbacks: cb }) == Some(0) {
        return unsafe { webrtc::ptr::OwnedRc::from_ptr(&FAKE_SSD_OBSERVER) };
    }
    info!("Rust_createSetSessionDescriptionObserver():");

    // Hit the onSuccess() callback
    let callbacks = callbacks.as_ptr() as *const SetSessionDescriptionObserverCallbacks;
    unsafe {
        ((*callbacks).onSuccess)(webrtc::ptr::Borrowed::from_ptr(
            ssd_observer.as_ptr() as *mut SetSessionDescriptionObserver
        ));

        webrtc::ptr::OwnedRc::from_ptr(&FAKE_SSD_OBSERVER)
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createCreateSessionDescriptionObserver(
    csd_observer: webrtc::ptr::Borrowed<std::ffi::c_void>,
    callbacks: webrtc::ptr::Borrowed<std::ffi::c_void>,
) -> webrtc::ptr::OwnedRc<RffiCreateSessionDescriptionObserver> {
    let (observer, cb) = (csd_observer.as_ptr() as usize, callbacks.as_ptr() as usize);
    let answer = tell(Event::Observer { set: false, observer, callbacks: cb });
    if answer == Some(0) {
        return unsafe { webrtc::ptr::OwnedRc::from_ptr(&FAKE_CSD_OBSERVER) };
    }
    info!("Rust_createCreateSessionDescriptionObserver():");

    // Hit the onSuccess() callback
    let callbacks = callbacks.as_ptr() as *const CreateSessionDescriptionObserverCallbacks;
    unsafe {
        ((*callbacks).onSuccess)(
            webrtc::ptr::Borrowed::from_ptr(
                csd_observer.as_ptr() as *mut CreateSessionDescriptionObserver
            ),
            answer.map_or(webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP)), owned),
        );

        webrtc::ptr::OwnedRc::from_ptr(&FAKE_CSD_OBSERVER)
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_toSdp(
    rffi: webrtc::ptr::Borrowed<RffiSessionDescription>,
) -> webrtc::ptr::Owned<c_char> {
    if let Some(r) = tell(Event::ToSdp { description: rffi.as_ptr() as usize }) {
        return owned(r);
    }
    info!("Rust_toSdp(): ");
    match unsafe { CString::new(*rffi.as_ptr()) } {
        Ok(cstr) => unsafe { webrtc::ptr::Owned::from_ptr(strdup(cstr.as_ptr())) },
        Err(_) => webrtc::ptr::Owned::null(),
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_disableDtlsAndSetSrtpKey(
    session_description: webrtc::ptr::Borrowed<RffiSessionDescription>,
    suite: SrtpCryptoSuite,
    key_data: webrtc::ptr::Borrowed<u8>,
    key_len: size_t,
    salt_data: webrtc::ptr::Borrowed<u8>,
    salt_len: size_t,
) -> bool {
    let description = session_description.as_ptr() as usize;
    let (key, salt) = unsafe { (bytes(key_data, key_len), bytes(salt_data, salt_len)) };
    if let Some(r) = tell(Event::Srtp { description, suite, key, salt }) {
        return r != 0;
    }
    info!("Rust_disableDtlsAndSetSrtpKey(): ");
    true
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_sessionDescriptionToV4Legacy(
    session_description: webrtc::ptr::Borrowed<RffiSessionDescription>,
    enable_vp9: bool,
) -> webrtc::ptr::Owned<RffiConnectionParametersV4> {
    let description = session_description.as_ptr() as usize;
    if let Some(r) = tell(Event::ToV4 { description, legacy: true, vp9_encode: enable_vp9, vp9_decode: enable_vp9 }) {
        return owned(r);
    }
    info!("Rust_sessionDescriptionToV4(): ");
    unsafe {
        webrtc::ptr::Owned::from_ptr(Box::leak(Box::new(RffiConnectionParametersV4 {
            ice_ufrag: webrtc::ptr::Borrowed::null(),
            ice_pwd: webrtc::ptr::Borrowed::null(),
            bidirectional_video_codecs: webrtc::ptr::Borrowed::null(),
            bidirectional_video_codecs_size: 0,
            encode_only_video_codecs: webrtc::ptr::Borrowed::null(),
            encode_only_video_codecs_size: 0,
            decode_only_video_codecs: webrtc::ptr::Borrowed::null(),
            decode_only_video_codecs_size: 0,
        })))
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_sessionDescriptionToV4(
    session_description: webrtc::ptr::Borrowed<RffiSessionDescription>,
    vp9_encode: bool,
    vp9_decode: bool,
) -> webrtc::ptr::Owned<RffiConnectionParametersV4> {
    let description = session_description.as_ptr() as usize;
    if let Some(r) = tell(Event::ToV4 { description, legacy: false, vp9_encode, vp9_decode }) {
        return owned(r);
    }
    info!("Rust_sessionDescriptionToV4(): ");
    unsafe {
        webrtc::ptr::Owned::from_ptr(Box::leak(Box::new(RffiConnectionParametersV4 {
            ice_ufrag: webrtc::ptr::Borrowed::null(),
            ice_pwd: webrtc::ptr::Borrowed::null(),
            bidirectional_video_codecs: webrtc::ptr::Borrowed::null(),
            bidirectional_video_codecs_size: 0,
            encode_only_video_codecs: webrtc::ptr::Borrowed::null(),
            encode_only_video_codecs_size: 0,
            decode_only_video_codecs: webrtc::ptr::Borrowed::null(),
            decode_only_video_codecs_size: 0,
        })))
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_deleteV4(v4: webrtc::ptr::Owned<RffiConnectionParametersV4>) {
    tell(Event::DeleteV4 { v4: v4.as_ptr() as usize });
    info!("Rust_deleteV4(): ");
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_sessionDescriptionFromV4Legacy(
    offer: bool,
    v4: webrtc::ptr::Borrowed<RffiConnectionParametersV4>,
    tcc_audio: bool,
    enable_vp9: bool,
) -> webrtc::ptr::Owned<RffiSessionDescription> {
    let r = tell(Event::FromV4 { offer, v4: unsafe { &*v4.as_ptr() }, legacy: true, tcc_audio, vp9_encode: enable_vp9, vp9_decode: enable_vp9, is_local: false });
    if let Some(r) = r {
        return owned(r);
    }
    info!("Rust_sessionDescriptionFromV4(): ");
    unsafe {
        if offer {
            webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP_OFFER))
        } else {
            webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP_ANSWER))
        }
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_sessionDescriptionFromV4(
    offer: bool,
    v4: webrtc::ptr::Borrowed<RffiConnectionParametersV4>,
    tcc_audio: bool,
    vp9_encode: bool,
    vp9_decode: bool,
    is_local: bool,
) -> webrtc::ptr::Owned<RffiSessionDescription> {
    let r = tell(Event::FromV4 { offer, v4: unsafe { &*v4.as_ptr() }, legacy: false, tcc_audio, vp9_encode, vp9_decode, is_local });
    if let Some(r) = r {
        return owned(r);
    }
    info!("Rust_sessionDescriptionFromV4(): ");
    unsafe {
        if offer {
            webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP_OFFER))
        } else {
            webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP_ANSWER))
        }
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_localDescriptionForGroupCall(
    ice_ufrag: webrtc::ptr::Borrowed<c_char>,
    ice_pwd: webrtc::ptr::Borrowed<c_char>,
    client_srtp_key: RffiSrtpKey,
    demux_id: u32,
    remote_demux_ids_data: webrtc::ptr::Borrowed<u32>,
    remote_demux_ids_len: size_t,
) -> webrtc::ptr::Owned<RffiSessionDescription> {
    let others = unsafe { ids(remote_demux_ids_data, remote_demux_ids_len) };
    let key = &client_srtp_key as *const RffiSrtpKey as usize;
    if let Some(r) = tell(Event::Group { remote: false, ufrag: ice_ufrag.as_ptr(), pwd: ice_pwd.as_ptr(), key, demux_id, others }) {
        return owned(r);
    }
    info!("Rust_localDescriptionForGroupCall(): ");
    unsafe { webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP_OFFER)) }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_remoteDescriptionForGroupCall(
    ice_ufrag: webrtc::ptr::Borrowed<c_char>,
    ice_pwd: webrtc::ptr::Borrowed<c_char>,
    server_srtp_key: RffiSrtpKey,
    demux_id: u32,
    remote_demux_ids_data: webrtc::ptr::Borrowed<u32>,
    remote_demux_ids_len: size_t,
) -> webrtc::ptr::Owned<RffiSessionDescription> {
    let others = unsafe { ids(remote_demux_ids_data, remote_demux_ids_len) };
    let key = &server_srtp_key as *const RffiSrtpKey as usize;
    if let Some(r) = tell(Event::Group { remote: true, ufrag: ice_ufrag.as_ptr(), pwd: ice_pwd.as_ptr(), key, demux_id, others }) {
        return owned(r);
    }
    info!("Rust_remoteDescriptionForGroupCall(): ");
    unsafe { webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP_ANSWER)) }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_deleteSessionDescription(sdi: webrtc::ptr::Owned<RffiSessionDescription>) {
    tell(Event::Delete { description: sdi.as_ptr() as usize });
    info!("Rust_deleteSessionDescription(): ");
}
