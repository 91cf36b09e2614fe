//! C39: what an application is told about a call's quality is what WebRTC reported.
use std::{cell::RefCell, collections::BTreeMap, ffi::CString, os::raw::c_char, rc::Rc};

use mclib::{Check, json, pick};
use mcstd::mc;
use ringrtc::{
    common::CallId,
    webrtc::{
        peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol},
        ptr::Borrowed,
        sim::stats_observer as sim,
        stats_observer::{
            AudioReceiverStatistics, AudioSenderStatistics, ConnectionStatistics, MediaStatistics, StatsObserver, StatsSnapshot, StatsSnapshotConsumer,
            StatsVideoCodecType, VideoReceiverStatistics, VideoSenderStatistics, create_stats_observer,
        },
    },
};

thread_local! {
    static MADE: RefCell<Vec<(usize, usize)>> = const { RefCell::new(vec![]) };
}

/// A snapshot as a list of named figures.
type Shot = (String, Vec<(&'static str, f64)>, String);

#[derive(Debug)]
struct Consumer(Rc<RefCell<Vec<Shot>>>);
impl StatsSnapshotConsumer for Consumer {
    fn on_stats_snapshot_ready(&self, s: &StatsSnapshot) {
        macro_rules! figures {
            ($s:expr, $($f:ident),*) => { vec![$((stringify!($f), $s.$f as f64)),*] };
        }
        let shot = match s {
            StatsSnapshot::Begin => ("begin".into(), vec![], String::new()),
            StatsSnapshot::End => ("end".into(), vec![], String::new()),
            StatsSnapshot::System(s) => ("system".into(), figures!(s, cpu_pct), String::new()),
            StatsSnapshot::Connection(s) => (
                "connection".into(),
                figures!(s, timestamp_us, current_round_trip_time, available_outgoing_bitrate, requests_sent, responses_received, requests_received, responses_sent),
                format!("{} {:?}", s.call_id, s.network_route),
            ),
            StatsSnapshot::AudioSender(s) => (
                format!("audio sender {}", s.ssrc),
                figures!(s, packets_per_second, average_packet_size, bitrate, remote_packets_lost_pct, remote_jitter, remote_rtt, audio_energy),
                String::new(),
            ),
            StatsSnapshot::VideoSender(s) => (
                format!("video sender {}", s.ssrc),
                figures!(
                    s, packets_per_second, average_packet_size, bitrate, framerate, key_frames_encoded, encode_time_per_frame, width, height,
                    retransmitted_packets_sent, retransmitted_bitrate, send_delay_per_packet, nack_count, pli_count, quality_limitation_resolution_changes,
                    remote_packets_lost_pct, remote_jitter, remote_round_trip_time
                ),
                format!("{} {} {:?}", s.quality_limitation_reason, s.codec, s.encoder_implementation),
            ),
            StatsSnapshot::AudioReceiver(s) => (
                format!("audio receiver {}", s.ssrc),
                figures!(
                    s, packets_per_second, packets_lost_pct, bitrate, jitter, jitter_buffer_delay, jitter_buffer_target_delay, jitter_buffer_flushes,
                    audio_energy, concealed_samples_pct, fec_packets_received, relative_arrival_delay_per_packet
                ),
                String::new(),
            ),
            StatsSnapshot::VideoReceiver(s) => (
                format!("video receiver {}", s.ssrc),
                figures!(s, packets_per_second, packets_lost_pct, bitrate, framerate, key_frames_decoded, decode_time_per_frame, width, height, jitter, freeze_count),
                format!("{} {:?}", s.codec, s.decoder_implementation),
            ),
        };
        self.0.borrow_mut().push(shot);
    }
}

/// What one stream has counted so far: every figure grows by its own factor.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Count {
    packets: i64,
    bytes: i64,
    frames: i64,
    lost: i64,
    other: i64,
    seconds: f64,
    gauge: f64,
}
/// How a stream goes on until the next report.
const HUGE: [Count; 3] = [
    Count { packets: 100_000, bytes: 6_000_000_000, frames: 70_000, lost: 40_000, other: 70_001, seconds: 5000.0, gauge: 3.0 },
    Count { packets: 40_000, bytes: 4_294_967_296, frames: 300, lost: 70_000, other: 3, seconds: 0.5, gauge: 0.5 },
    Count { packets: 70_000, bytes: 1_000, frames: 33_000, lost: -69_000, other: 256, seconds: 70_000.0, gauge: 100.0 },
];
const STEPS: [Option<Count>; 7] = [
    None, // not reported
    Some(Count { packets: 0, bytes: 0, frames: 0, lost: 0, other: 0, seconds: 0.0, gauge: 0.001 }),
    Some(Count { packets: 50, bytes: 6000, frames: 30, lost: 5, other: 7, seconds: 0.75, gauge: 0.02 }),
    Some(Count { packets: 3, bytes: 900, frames: 0, lost: -2, other: 1, seconds: 0.0, gauge: 0.3 }),
    Some(Count { packets: 0, bytes: 0, frames: 2, lost: 9, other: 0, seconds: 0.125, gauge: 0.0 }),
    Some(Count { packets: 1000, bytes: 1_200_000, frames: 300, lost: -40, other: 100, seconds: 2.5, gauge: 0.05 }),
    // anew
    Some(Count { packets: -1, bytes: 0, frames: 0, lost: 0, other: 0, seconds: 0.0, gauge: 0.0 }),
];
impl Count {
    fn go(self, c: Count) -> Count {
        if c.packets < 0 {
            return Count { packets: 11, bytes: 1300, frames: 4, lost: 1, other: 2, seconds: 0.25, gauge: 0.004 };
        }
        Count {
            packets: self.packets + c.packets,
            bytes: self.bytes + c.bytes,
            frames: self.frames + c.frames,
            lost: self.lost + c.lost,
            other: self.other + c.other,
            seconds: self.seconds + c.seconds,
            gauge: c.gauge,
        }
    }
}

fn audio_send(ssrc: u32, c: Count) -> AudioSenderStatistics {
    AudioSenderStatistics {
        ssrc,
        packets_sent: c.packets as u32,
        bytes_sent: c.bytes as u64,
        remote_packets_lost: c.lost as i32,
        remote_jitter: c.gauge,
        remote_round_trip_time: c.gauge * 3.0,
        total_audio_energy: c.seconds * 7.0,
    }
}
fn video_send(ssrc: u32, c: Count, name: *const c_char) -> VideoSenderStatistics {
    VideoSenderStatistics {
        ssrc,
        packets_sent: c.packets as u32,
        bytes_sent: c.bytes as u64,
        frames_encoded: c.frames as u32,
        key_frames_encoded: c.other as u32,
        total_encode_time: c.seconds,
        frame_width: 640 + c.frames as u32,
        frame_height: 480 + c.frames as u32,
        retransmitted_packets_sent: c.other as u64 * 3,
        retransmitted_bytes_sent: c.other as u64 * 1100,
        total_packet_send_delay: c.seconds * 2.0,
        nack_count: c.other as u32 * 5,
        pli_count: c.other as u32 * 11,
        quality_limitation_reason: c.other as u32 % 6,
        quality_limitation_resolution_changes: c.other as u32 * 13,
        remote_packets_lost: c.lost as i32,
        remote_jitter: c.gauge,
        remote_round_trip_time: c.gauge * 3.0,
        codec: codec(c).0,
        raw_encoder_implementation: Borrowed::from_ptr(name),
    }
}
fn audio_receive(ssrc: u32, c: Count) -> AudioReceiverStatistics {
    AudioReceiverStatistics {
        ssrc,
        packets_received: c.packets as u32,
        packets_lost: c.lost as i32,
        bytes_received: c.bytes as u64,
        jitter: c.gauge,
        total_audio_energy: c.seconds * 7.0,
        jitter_buffer_delay: c.seconds * 17.0,
        jitter_buffer_target_delay: c.seconds * 19.0,
        jitter_buffer_emitted_count: c.frames as u64 * 960,
        jitter_buffer_flushes: c.other as u64 * 23,
        estimated_playout_timestamp: 1e9,
        total_samples_received: c.frames as u64 * 2000,
        concealed_samples: c.frames as u64 * 31,
        silent_concealed_samples: c.frames as u64 * 11 + c.other as u64 * 40,
        fec_packets_received: c.other as u64 * 37,
        packets_discarded: c.other as u64 / 2,
        relative_packet_arrival_delay: c.seconds * 41.0,
    }
}
fn video_receive(ssrc: u32, c: Count, name: *const c_char) -> VideoReceiverStatistics {
    VideoReceiverStatistics {
        ssrc,
        packets_received: c.packets as u32,
        packets_lost: c.lost as i32,
        bytes_received: c.bytes as u64,
        frames_received: c.frames as u32 + 1,
        frames_decoded: c.frames as u32,
        key_frames_decoded: c.other as u32,
        total_decode_time: c.seconds,
        frame_width: 640 + c.frames as u32,
        frame_height: 480 + c.frames as u32,
        freeze_count: c.other as u32 * 43,
        total_freezes_duration: c.seconds * 47.0,
        jitter: c.gauge,
        jitter_buffer_delay: c.seconds * 53.0,
        jitter_buffer_emitted_count: c.frames as u64 * 59,
        jitter_buffer_flushes: c.other as u64 * 61,
        estimated_playout_timestamp: 1e9,
        codec: codec(c).0,
        raw_decoder_implementation: Borrowed::from_ptr(name),
    }
}
fn codec(c: Count) -> (StatsVideoCodecType, &'static str) {
    match c.other % 3 {
        0 => (StatsVideoCodecType::Invalid, "Invalid"),
        1 => (StatsVideoCodecType::Vp8, "VP8"),
        _ => (StatsVideoCodecType::Vp9, "VP9"),
    }
}

/// What should be told: `a` per `b`, nothing of nothing.
fn per(a: f64, b: f64) -> f64 {
    if b == 0.0 { 0.0 } else { a / b }
}
fn more(a: i64, b: i64, factor: i64) -> f64 {
    ((a - b).max(0) * factor) as f64
}
fn longer(a: f64, b: f64, factor: f64) -> f64 {
    ((a - b) * factor).max(0.0)
}
fn expect(kind: usize, ssrc: u32, c: Count, p: Count, t: f64, keep: &mut (f64, f64), name: Option<&str>) -> Shot {
    let (packets, bytes, frames) = (more(c.packets, p.packets, 1), more(c.bytes, p.bytes, 1), more(c.frames, p.frames, 1));
    let lost = (c.lost - p.lost) as f64;
    let (rate, bits) = (per(packets, t), per(8.0 * bytes, t));
    let other = |f: i64| more(c.other, p.other, f);
    let time = |f: f64| longer(c.seconds, p.seconds, f);
    match kind {
        0 => (
            format!("audio sender {ssrc}"),
            vec![
                ("packets_per_second", rate),
                ("average_packet_size", per(bytes, packets)),
                ("bitrate", bits),
                ("remote_packets_lost_pct", per(100.0 * lost.max(0.0), packets)),
                ("remote_jitter", 1000.0 * c.gauge),
                ("remote_rtt", 3000.0 * c.gauge),
                ("audio_energy", time(7.0)),
            ],
            String::new(),
        ),
        1 => (
            format!("video sender {ssrc}"),
            vec![
                ("packets_per_second", rate),
                ("average_packet_size", per(bytes, packets)),
                ("bitrate", bits),
                ("framerate", per(frames, t)),
                ("key_frames_encoded", other(1)),
                ("encode_time_per_frame", per(1000.0 * time(1.0), frames)),
                ("width", (640 + c.frames) as f64),
                ("height", (480 + c.frames) as f64),
                ("retransmitted_packets_sent", other(3)),
                ("retransmitted_bitrate", per(8.0 * other(1100), t)),
                ("send_delay_per_packet", per(1000.0 * time(2.0), packets)),
                ("nack_count", other(5)),
                ("pli_count", other(11)),
                ("quality_limitation_resolution_changes", other(13)),
                ("remote_packets_lost_pct", per(100.0 * lost.max(0.0), packets)),
                ("remote_jitter", 1000.0 * c.gauge),
                ("remote_round_trip_time", 3000.0 * c.gauge),
            ],
            format!("{} {} {:?}", ["none", "cpu", "bandwidth", "other", "4", "5"][(c.other % 6) as usize], codec(c).1, name),
        ),
        2 => {
            let emitted = frames * 960.0;
            if emitted > 0.0 {
                *keep = (1000.0 * time(17.0) / emitted, 1000.0 * time(19.0) / emitted);
            }
            let discarded = ((c.other / 2) - (p.other / 2)).max(0) as f64;
            let all = packets + lost;
            let silent = frames * 11.0 + (c.other - p.other) as f64 * 40.0;
            let silent = if (c.frames * 11 + c.other * 40) > (p.frames * 11 + p.other * 40) { silent } else { 0.0 };
            let silent = if silent > 0.0 { ((c.frames - p.frames) * 11 + (c.other - p.other) * 40) as f64 } else { 0.0 };
            (
                format!("audio receiver {ssrc}"),
                vec![
                    ("packets_per_second", rate),
                    ("packets_lost_pct", if all > 0.0 { (100.0 * (lost + discarded) / all).max(0.0) } else { 0.0 }),
                    ("bitrate", bits),
                    ("jitter", 1000.0 * c.gauge),
                    ("jitter_buffer_delay", keep.0),
                    ("jitter_buffer_target_delay", keep.1),
                    ("jitter_buffer_flushes", other(23)),
                    ("audio_energy", time(7.0)),
                    ("concealed_samples_pct", per(100.0 * (frames * 31.0 - silent).max(0.0), frames * 2000.0)),
                    ("fec_packets_received", other(37)),
                    ("relative_arrival_delay_per_packet", per(1000.0 * time(41.0), packets)),
                ],
                String::new(),
            )
        }
        _ => (
            format!("video receiver {ssrc}"),
            vec![
                ("packets_per_second", rate),
                ("packets_lost_pct", per(100.0 * lost.max(0.0), packets + lost.max(0.0))),
                ("bitrate", bits),
                ("framerate", per(frames, t)),
                ("key_frames_decoded", other(1)),
                ("decode_time_per_frame", per(1000.0 * time(1.0), frames)),
                ("width", (640 + c.frames) as f64),
                ("height", (480 + c.frames) as f64),
                ("jitter", 1000.0 * c.gauge),
                ("freeze_count", other(43)),
            ],
            format!("{} {:?}", codec(c).1, name),
        ),
    }
}

#[repr(C)]
struct RawConnection {
    id: *const c_char,
    rtt: f64,
    bitrate: f64,
    counts: [u64; 4],
}

struct Reporter {
    observer: Box<StatsObserver>,
    at: usize,
    callback: extern "C" fn(usize, *const MediaStatistics, *const c_char),
    got: Rc<RefCell<Vec<Shot>>>,
    initial: f64,
    reports: u64,
    last_us: i64,
    /// What each stream (kind, ssrc) has counted, and what it had at its last report.
    counts: BTreeMap<(usize, u32), Count>,
    seen: BTreeMap<(usize, u32), (Count, (f64, f64), u64)>,
    routes: (Option<NetworkRoute>, Option<NetworkRoute>),
    /// How long the raw reports are.
    long: usize,
    /// which counters of the video that is sent went back: packets, bytes, frames, key frames, NACKs, PLIs
    back: usize,
}
const CALL: u64 = 0xFEDC_BA98_7654_3210;
impl Reporter {
    fn new(initial_secs: u64) -> Self {
        sim::listen(|o, c| MADE.with(|m| m.borrow_mut().push((o, c))));
        MADE.with(|m| m.borrow_mut().clear());
        let mut observer = create_stats_observer(CallId::new(CALL), mcstd::time::Duration::from_millis(initial_secs * 1000 + 400));
        let (at, callbacks) = MADE.with(|m| m.borrow()[0]);
        let got = Rc::new(RefCell::new(vec![]));
        observer.set_stats_snapshot_consumer(Box::new(Consumer(got.clone())));
        Reporter {
            observer,
            at,
            callback: unsafe { *(callbacks as *const extern "C" fn(usize, *const MediaStatistics, *const c_char)) },
            got,
            initial: initial_secs as f64,
            reports: 0,
            last_us: 0,
            counts: BTreeMap::new(),
            seen: BTreeMap::new(),
            routes: (None, None),
            long: 0,
            back: 0,
        }
    }
    fn route(&mut self, r: NetworkRoute) {
        self.observer.set_network_route(r);
        self.routes.1 = Some(r);
    }
    /// WebRTC reports `streams` (kind, ssrc, how they went on), `us` after the last report.
    fn report(&mut self, us: i64, streams: &[(usize, u32, Count)]) {
        let now = if self.last_us == 0 { 1_700_000_000_000_000 } else { self.last_us + us };
        let t = if self.last_us == 0 { self.initial } else { us as f64 / 1e6 };
        self.last_us = now;
        self.reports += 1;
        let n = self.reports;
        let names = [c"libvpx", c"ext\xc3\xa4rnal"];
        let (mut a, mut v, mut ar, mut vr) = (vec![], vec![], vec![], vec![]);
        let route = self.routes.0.or(self.routes.1);
        self.routes.0 = self.routes.1;
        let mut want: Vec<Shot> = vec![
            ("begin".into(), vec![], String::new()),
            ("system".into(), vec![], String::new()),
            (
                "connection".into(),
                vec![
                    ("timestamp_us", now as f64),
                    ("current_round_trip_time", 1000.0 * 0.033 * n as f64),
                    ("available_outgoing_bitrate", 123_456.0 * n as f64),
                    ("requests_sent", 3.0 * n as f64),
                    ("responses_received", 5.0 * n as f64),
                    ("requests_received", 7.0 * n as f64),
                    ("responses_sent", 11.0 * n as f64),
                ],
                format!("{} {route:?}", CallId::new(CALL)),
            ),
        ];
        let virtual_now = mc::now();
        for kind in 0..4 {
            for &(k, ssrc, step) in streams.iter().filter(|s| s.0 == kind) {
                let c = self.counts.entry((k, ssrc)).or_default();
                *c = c.go(step);
                for (k, x) in [&mut c.packets, &mut c.bytes, &mut c.frames].into_iter().enumerate() {
                    if self.back & (1 << k) != 0 {
                        *x = 4;
                    }
                }
                let c = *c;
                let entry = self.seen.entry((k, ssrc)).or_insert((Count::default(), (0.0, 0.0), virtual_now));
                let mut p = entry.0;
                // WebRTC has begun to count the stream it sends anew
                if kind == 1 && (c.packets < p.packets || c.bytes < p.bytes || c.frames < p.frames || c.other < p.other || self.back != 0) {
                    p = Count::default();
                }
                let name = (c.other % 4 > 0).then_some(c.other as usize % 2);
                let raw = name.map_or(std::ptr::null(), |i| names[i].as_ptr());
                want.push(expect(kind, ssrc, c, p, t, &mut entry.1, name.map(|i| ["libvpx", "ext\u{e4}rnal"][i])));
                if self.back != 0 {
                    for f in &mut want.last_mut().unwrap().1 {
                        if ["key_frames_encoded", "nack_count", "pli_count"].iter().position(|n| *n == f.0).is_some_and(|k| self.back & (8 << k) != 0) {
                            f.1 = 1.0;
                        }
                    }
                }
                entry.0 = c;
                entry.2 = virtual_now;
                match kind {
                    0 => a.push(audio_send(ssrc, c)),
                    1 => {
                        let mut s = video_send(ssrc, c, raw);
                        for (k, x) in [&mut s.key_frames_encoded, &mut s.nack_count, &mut s.pli_count].into_iter().enumerate() {
                            if self.back & (8 << k) != 0 {
                                *x = 1;
                            }
                        }
                        v.push(s);
                    }
                    2 => ar.push(audio_receive(ssrc, c)),
                    _ => vr.push(video_receive(ssrc, c, raw)),
                }
            }
        }
        want.push(("end".into(), vec![], String::new()));
        let connection = |k: u64, id: *const c_char| -> ConnectionStatistics {
            let raw = RawConnection { id, rtt: 0.033 * k as f64, bitrate: 123_456.0 * k as f64, counts: [3 * k, 5 * k, 7 * k, 11 * k] };
            assert_eq!(size_of::<RawConnection>(), size_of::<ConnectionStatistics>());
            unsafe { std::mem::transmute_copy(&raw) }
        };
        let others = [connection(100, c"pair1".as_ptr()), connection(200, std::ptr::null())];
        // what is not there is null, whatever its size
        let sized = |n: usize| if n == 0 { 3 } else { n as u32 };
        fn list<T>(v: &[T]) -> *const T {
            if v.is_empty() { std::ptr::null() } else { v.as_ptr() }
        }
        let m = MediaStatistics {
            timestamp_us: now,
            audio_sender_statistics_size: sized(a.len()),
            audio_sender_statistics: list(&a),
            video_sender_statistics_size: sized(v.len()),
            video_sender_statistics: list(&v),
            audio_receiver_statistics_size: sized(ar.len()),
            audio_receiver_statistics: list(&ar),
            video_receiver_statistics_size: sized(vr.len()),
            video_receiver_statistics: list(&vr),
            nominated_connection_statistics: connection(n, c"nominated".as_ptr()),
            connection_statistics: others.as_ptr(),
            connection_statistics_size: 2,
        };
        let json = CString::new(match n % 4 {
            3 => String::new(),
            1 => format!("{{\"report\": {n}, \"long\": \"{}\"}}", "x".repeat(self.long)),
            _ => format!("{{\"report\": {n}}}"),
        })
        .unwrap();
        self.got.borrow_mut().clear();
        (self.callback)(self.at, &m, json.as_ptr());
        drop((a, v, ar, vr));
        let got = self.got.borrow();
        let titles = |s: &[Shot]| s.iter().map(|s| s.0.clone()).collect::<Vec<_>>();
        assert_eq!(titles(&got), titles(&want), "report {n}: the snapshots");
        for (g, w) in got.iter().zip(&want) {
            for (name, x) in &g.1 {
                assert!(x.is_finite() && *x >= 0.0, "report {n}, {t} s after the one before: {name} of {} is {x}", g.0);
            }
            if g.0 == "system" {
                assert!(g.1.iter().all(|f| f.1 <= 100.5), "{g:?}");
                continue;
            }
            assert_eq!(g.2, w.2, "report {n}: {}", g.0);
            assert_eq!(g.1.iter().map(|f| f.0).collect::<Vec<_>>(), w.1.iter().map(|f| f.0).collect::<Vec<_>>());
            for (x, y) in g.1.iter().zip(&w.1) {
                assert!((x.1 - y.1).abs() <= 1e-4 * y.1.abs().max(1e-3), "report {n}, {t} s after the one before: {} of {} is {} instead of {}", x.0, g.0, x.1, y.1);
            }
        }
        drop(got);
        // the raw report of the last one is there once
        if n % 2 == 1 {
            let want = (!json.is_empty()).then(|| json.to_str().unwrap().to_string());
            assert_eq!(self.observer.take_stats_report(), want, "report {n}: the raw report");
            assert_eq!(self.observer.take_stats_report(), None, "report {n}: the raw report came twice");
        }
        // every 60 reports, what was received and not reported for 10 minutes is forgotten
        if n % 60 == 0 {
            self.seen.retain(|k, s| k.0 < 2 || virtual_now - s.2 < 600 * 1_000_000_000);
        }
    }
}

fn a_route(k: usize) -> NetworkRoute {
    NetworkRoute {
        local_adapter_type: NetworkAdapterType::Wifi,
        local_adapter_type_under_vpn: NetworkAdapterType::Unknown,
        local_relayed: k % 2 == 1,
        local_relay_protocol: TransportProtocol::Udp,
        remote_relayed: k > 1,
    }
}

/// Every sequence of reports of one stream of each kind and a second one that goes on differently.
fn sequences(reports: usize) {
    let mut r = Reporter::new([2, 0][mc::choose(2)]);
    let kind = mc::choose(4);
    for n in 0..reports {
        let us = if n == 0 { 0 } else { [10_000_000, 0, 500_000][mc::choose(3)] };
        let streams: Vec<(usize, u32, Count)> = STEPS[mc::choose(7)].iter().map(|s| (kind, 77, *s)).collect();
        r.report(us, &streams);
        mc::cover(if us == 0 { "at_once" } else { "later" });
    }
}

/// Several streams of all kinds, in any order, and changes of the route.
fn together(reports: usize) {
    let mut r = Reporter::new(2);
    for _ in 0..reports {
        match mc::choose(3) {
            0 => {}
            k => r.route(a_route(k)),
        }
        let mut streams = vec![];
        let steps = [STEPS[2].unwrap(), STEPS[3].unwrap()];
        let which = mc::choose(10);
        for kind in 0..4 {
            if which & 1 == 1 || which == 2 * kind {
                streams.push((kind, 5, steps[0]));
            }
            if which >= 3 {
                streams.push((kind, 6 + kind as u32, steps[(which + kind) % 2]));
            }
        }
        // the same source on the receiving side and the sending side
        if which == 9 {
            streams.reverse();
        }
        r.report(10_000_000, &streams);
    }
    mc::cover("together");
}

/// A stream that is not reported for a while counts on, unless it was forgotten.
fn forgotten() {
    let mut r = Reporter::new(2);
    let kind = mc::choose(4);
    let pause = [599, 600, 601][mc::choose(3)];
    let ticks = [58usize, 59, 60][mc::choose(3)];
    r.report(0, &[(kind, 77, STEPS[5].unwrap()), (3 - kind, 78, STEPS[5].unwrap())]);
    for k in 1..ticks {
        if k == 30 {
            mc::advance(mcstd::time::Duration::from_secs(pause));
        }
        // the other one is reported now and then
        let s: &[(usize, u32, Count)] = if k % 7 == 3 { &[(3 - kind, 78, STEPS[2].unwrap())] } else { &[] };
        r.report(10_000_000, s);
    }
    r.report(10_000_000, &[]);
    for _ in 0..2 {
        r.report(10_000_000, &[(kind, 77, STEPS[2].unwrap()), (3 - kind, 78, STEPS[2].unwrap())]);
    }
    mc::cover(if ticks >= 60 { "after_the_clean_up" } else { "before_the_clean_up" });
}

/// Long calls: much is counted between two reports, which come late, and raw reports are long.
fn much(reports: usize) {
    let mut r = Reporter::new(2);
    r.long = [5, 65_536, 1 << 20][mc::choose(3)];
    let kind = mc::choose(4);
    for n in 0..reports {
        let us = if n == 0 { 0 } else { [10_000_000, 2_200_000_000, 4_300_000_000, 90_000_000_000][mc::choose(4)] };
        let step = mc::choose(4);
        r.report(us, &[(kind, 77, if step == 3 { STEPS[2].unwrap() } else { HUGE[step] })]);
    }
    mc::cover("much");
}

/// Whichever counters go back, the video that is sent is counted anew.
fn anew() {
    let mut r = Reporter::new(2);
    r.report(0, &[(1, 77, STEPS[5].unwrap())]);
    r.report(10_000_000, &[(1, 77, STEPS[2].unwrap())]);
    r.back = mc::choose(64);
    mc::cover(if r.back == 0 { "on" } else { "anew" });
    r.report(10_000_000, &[(1, 77, STEPS[mc::choose(4) + 1].unwrap())]);
}

/// A call of many: the sources' numbers differ anywhere.
fn many() {
    let mut r = Reporter::new(2);
    let n = [17, 65, 257, 1000][mc::choose(4)];
    let shift = [0, 4, 8, 16, 22][mc::choose(5)];
    for round in 0..3usize {
        let mut streams = vec![];
        for kind in 0..4 {
            for k in 0..n {
                // every one goes on differently, and some are missing at times
                if (k + round) % 5 != 0 {
                    streams.push((kind, 5 + ((k as u32) << shift), STEPS[1 + (k * 3 + kind + round) % 5].unwrap()));
                }
            }
        }
        r.report(10_000_000, &streams);
    }
    mc::cover("many");
}

/// Streams are forgotten again and again.
fn again() {
    let mut r = Reporter::new(2);
    let kind = mc::choose(4);
    let ticks = [119, 120, 121, 180][mc::choose(4)];
    let gone = 1 + mc::choose(2) * 60;
    for k in 0..ticks {
        let mut s = vec![];
        if k <= gone && k % 10 == 1 {
            s.push((kind, 77, STEPS[5].unwrap()));
        }
        if k % 7 == 3 {
            s.push((3 - kind, 78, STEPS[2].unwrap()));
        }
        mc::advance(mcstd::time::Duration::from_secs(11));
        r.report(11_000_000, &s);
    }
    for _ in 0..2 {
        r.report(10_000_000, &[(kind, 77, STEPS[2].unwrap()), (3 - kind, 78, STEPS[2].unwrap())]);
    }
    mc::cover("again");
}

/// Nothing is reported where something is missing, and raw reports are asked for.
fn missing() {
    let r = Reporter::new(2);
    let json = c"x";
    (r.callback)(r.at, std::ptr::null(), json.as_ptr());
    (r.callback)(0, std::ptr::null(), json.as_ptr());
    assert!(r.got.borrow().is_empty() && r.observer.take_stats_report().is_none(), "a report of nothing");
    for on in [true, false] {
        r.observer.set_collect_raw_stats_report(on);
        assert_eq!(sim::RAW.load(std::sync::atomic::Ordering::SeqCst), 1 + on as usize, "raw reports");
    }
    assert_eq!([StatsVideoCodecType::Invalid as u32, StatsVideoCodecType::Vp8 as u32, StatsVideoCodecType::Vp9 as u32], [0, 8, 9], "WebRTC's codecs");
    mc::cover("missing");
}

pub fn c39() {
    let mut c = Check::new("C39", "model_checking");
    c.rule("Every sequence, up to the depth, of reports of a stream of each kind that is absent, stands still, goes on in different ways (also with packets that were lost and come after all) or begins anew, at different times since the last report; every sequence of reports of several streams and of routes; streams that were not reported for about ten minutes around the clean-up.");
    c.assume("WebRTC's reports are not dated back; counters stay below 2^31.");
    let cfg = mc::Config { bound: 0, max_seconds: pick(150, 800), ..Default::default() };
    let n = pick(3, 4);
    c.schedules("sequences", &cfg, &|| sequences(n));
    let n = pick(3, 4);
    c.schedules("together", &cfg, &|| together(n));
    c.schedules("forgotten", &cfg, &forgotten);
    let n = pick(2, 3);
    c.schedules("much", &cfg, &|| much(n));
    c.schedules("many", &cfg, &many);
    c.schedules("anew", &cfg, &anew);
    c.schedules("forgotten_again", &cfg, &again);
    c.schedules("missing", &cfg, &missing);
    c.sample(json!({"harnesses": 8}));
    c.finish();
}
