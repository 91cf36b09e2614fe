//! Stand-in for webrtc/sim/rtp_observer.rs: remembers the observer and its callback.

use crate::webrtc;

pub struct RffiRtpObserver {
    pub observer: *const std::ffi::c_void,
    pub on_rtp_received: usize,
}

impl webrtc::ptr::Delete for RffiRtpObserver {
    fn delete(owned: webrtc::ptr::Owned<Self>) {
        let p = owned.as_ptr() as *mut Self;
        std::mem::forget(owned);
        if !p.is_null() {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createRtpObserver(
    observer: webrtc::ptr::Borrowed<std::ffi::c_void>,
    callbacks: webrtc::ptr::Borrowed<std::ffi::c_void>,
) -> webrtc::ptr::Owned<RffiRtpObserver> {
    let on_rtp_received = unsafe { *(callbacks.as_ptr() as *const usize) };
    let it = Box::new(RffiRtpObserver { observer: observer.as_ptr(), on_rtp_received });
    unsafe { webrtc::ptr::Owned::from_ptr(Box::into_raw(it)) }
}
