//
// Copyright 2019-2021 Signal Messenger, LLC
// SPDX-License-Identifier: AGPL-3.0-only
//

//! Stand-in for webrtc/sim/ref_count.rs that tells a harness about every reference taken and given back.

use core::sync::atomic::{AtomicUsize, Ordering};

use crate::webrtc;

/// A `fn(pointer, +1 or -1)`, or 0.
pub static LISTENER: AtomicUsize = AtomicUsize::new(0);

pub fn listen(f: fn(usize, i32)) {
    LISTENER.store(f as usize, Ordering::SeqCst);
}
fn tell(at: usize, by: i32) {
    let f = LISTENER.load(Ordering::SeqCst);
    if f != 0 && at != 0 {
        let f: fn(usize, i32) = unsafe { std::mem::transmute(f) };
        f(at, by);
    }
}

/// # Safety
pub fn dec<T: webrtc::ptr::RefCounted>(rc: webrtc::ptr::OwnedRc<T>) {
    tell(rc.as_ptr() as usize, -1);
}

/// # Safety
pub unsafe fn inc<T: webrtc::ptr::RefCounted>(
    rc: webrtc::ptr::BorrowedRc<T>,
) -> webrtc::ptr::OwnedRc<T> {
    tell(rc.as_ptr() as usize, 1);
    unsafe { webrtc::ptr::OwnedRc::from_ptr(rc.as_ptr()) }
}
