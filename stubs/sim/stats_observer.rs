//
// Copyright 2019-2021 Signal Messenger, LLC
// SPDX-License-Identifier: AGPL-3.0-only
//

//! Stand-in for webrtc/sim/stats_observer.rs: the same, unless a harness listens and reports itself.

use std::ptr;

use crate::webrtc::{
    self,
    stats_observer::{
        ConnectionStatistics, MediaStatistics, StatsObserver, StatsObserverCallbacks,
    },
};

/// Simulation type for webrtc::rffi::StatsObserverRffi
pub type RffiStatsObserver = u32;

static FAKE_STATS_OBSERVER: u32 = 21;

/// A `fn(observer, callbacks)` that is told of every observer instead of that getting a first report, or 0.
pub static LISTENER: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
/// What was last asked of collecting raw reports.
pub static RAW: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);

pub fn listen(f: fn(usize, usize)) {
    LISTENER.store(f as usize, core::sync::atomic::Ordering::SeqCst);
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_createStatsObserver(
    stats_observer: webrtc::ptr::Borrowed<std::ffi::c_void>,
    callbacks: webrtc::ptr::Borrowed<std::ffi::c_void>,
) -> webrtc::ptr::OwnedRc<RffiStatsObserver> {
    info!("Rust_createStatsObserver():");
    let f = LISTENER.load(core::sync::atomic::Ordering::SeqCst);
    if f != 0 {
        let f: fn(usize, usize) = unsafe { std::mem::transmute(f) };
        f(stats_observer.as_ptr() as usize, callbacks.as_ptr() as usize);
        return unsafe { webrtc::ptr::OwnedRc::from_ptr(&FAKE_STATS_OBSERVER) };
    }

    let dummy = MediaStatistics {
        timestamp_us: 0,
        audio_sender_statistics_size: 0,
        audio_sender_statistics: ptr::null(),
        video_sender_statistics_size: 0,
        video_sender_statistics: ptr::null(),
        audio_receiver_statistics_size: 0,
        audio_receiver_statistics: ptr::null(),
        video_receiver_statistics_size: 0,
        video_receiver_statistics: ptr::null(),
        nominated_connection_statistics: ConnectionStatistics::default(),
        connection_statistics: ptr::null(),
        connection_statistics_size: 0,
    };

    // Hit on the onComplete() callback
    let callbacks = callbacks.as_ptr() as *const StatsObserverCallbacks;
    let report_json = std::ffi::CString::new("{}").expect("CString::new failed");
    unsafe {
        ((*callbacks).onStatsComplete)(
            webrtc::ptr::Borrowed::from_ptr(stats_observer.as_ptr() as *mut StatsObserver),
            webrtc::ptr::Borrowed::from_ptr(&dummy),
            webrtc::ptr::Borrowed::from_ptr(report_json.as_ptr()),
        );

        webrtc::ptr::OwnedRc::from_ptr(&FAKE_STATS_OBSERVER)
    }
}

#[allow(non_snake_case, clippy::missing_safety_doc)]
pub unsafe fn Rust_setCollectRawStatsReport(
    _stats_observer: webrtc::ptr::BorrowedRc<RffiStatsObserver>,
    collect_raw_stats_report: bool,
) {
    RAW.store(1 + collect_raw_stats_report as usize, core::sync::atomic::Ordering::SeqCst);
    info!(
        "Rust_setCollectRawStatsReport: {}",
        collect_raw_stats_report
    );
}
