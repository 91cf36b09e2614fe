//! Stand-in for webrtc/sim/peer_connection_observer.rs: remembers the observer and its callbacks, so
//! that a harness can call what WebRTC would call.

use crate::webrtc;

/// The callbacks of `PeerConnectionObserverCallbacks`, in the order of that (C) structure.
pub const CALLBACKS: usize = 12;

pub struct RffiPeerConnectionObserver {
    pub observer: *const std::ffi::c_void,
    pub callbacks: [usize; CALLBACKS],
}

impl webrtc::ptr::Delete for RffiPeerConnectionObserver {
    fn delete(owned: webrtc::ptr::Owned<Self>) {
        let p = owned.as_ptr() as *mut Self;
        std::mem::forget(owned);
        if !p.is_null() {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createPeerConnectionObserver(
    cc_ptr: webrtc::ptr::Borrowed<std::ffi::c_void>,
    pc_observer_cb: webrtc::ptr::Borrowed<std::ffi::c_void>,
    _enable_frame_encryption: bool,
    _enable_video_frame_event: bool,
    _enable_video_frame_content: bool,
) -> webrtc::ptr::Owned<RffiPeerConnectionObserver> {
    let callbacks = unsafe { *(pc_observer_cb.as_ptr() as *const [usize; CALLBACKS]) };
    let it = Box::new(RffiPeerConnectionObserver { observer: cc_ptr.as_ptr(), callbacks });
    unsafe { webrtc::ptr::Owned::from_ptr(Box::into_raw(it)) }
}
