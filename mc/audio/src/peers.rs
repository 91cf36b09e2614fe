//! C45: what is asked of a peer connection, track, source, frame or gatherer reaches that object, and whatever
//! WebRTC may use lives as long as it may.
use std::{
    cell::RefCell,
    ffi::{CStr, CString, c_char, c_void},
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
    time::Duration,
};

use mclib::{Check, ensure, json, pick};
use mcstd::mc;
use ringrtc::{
    common::{CallId, Result as RingResult, units::DataRate},
    core::signaling,
    webrtc::{
        self,
        ice_gatherer::IceGatherer,
        media::{AudioDecoderConfig, AudioEncoderConfig, AudioTrack, MediaStream, VideoFrame, VideoFrameMetadata, VideoPixelFormat, VideoSource, VideoTrack},
        peer_connection::{PeerConnection, Protocol, SendRates},
        peer_connection_factory::{AudioJitterBufferConfig, IceServer, PeerConnectionFactory, RffiPeerConnectionKind},
        peer_connection_observer::{IceConnectionState, NetworkRoute, PeerConnectionObserver, PeerConnectionObserverTrait, TransportProtocol},
        ptr::{Borrowed, Owned, OwnedRc, Unique},
        rtp,
        rtp_observer::{RtpObserver, RtpObserverTrait},
        sdp_observer::{SessionDescription, create_csd_observer, create_ssd_observer},
        stats_observer::create_stats_observer,
    },
};

use crate::{misused, sound, sound::misuse};

// --- WebRTC ---------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Native,
    Factory,
    Pc,
    Audio,
    Source,
    Video,
    Gatherer,
    Buffer,
    Csd,
    Ssd,
    Stats,
    Desc,
    PcObserver,
    RtpObserver,
}
use Kind::*;
#[derive(Clone, Debug)]
struct Obj {
    kind: Kind,
    count: usize,
    /// what it keeps alive
    keeps: Vec<usize>,
    /// what has to live as long as it does
    needs: Vec<usize>,
}
#[derive(Default)]
struct World {
    objs: Vec<Obj>,
    /// what was asked, in order
    asked: Vec<String>,
    /// the answer to what can fail
    yes: bool,
    /// the next thing cannot be made
    refuse: bool,
    levels: (u16, Vec<(u32, u16)>),
    estimate: u32,
    picture: Vec<u8>,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}
const BASE: usize = 0x10_0000;
fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}
fn ptr(i: usize) -> *const c_void {
    (BASE + 32 * i) as *const c_void
}
fn index(p: *const c_void) -> Option<usize> {
    let a = (p as usize).checked_sub(BASE)?;
    (a % 32 == 0 && a / 32 < w(|w| w.objs.len())).then_some(a / 32)
}
/// An object that WebRTC is given to use, or usize::MAX.
fn used(p: *const c_void, kind: Kind, what: &str) -> usize {
    let Some(i) = index(p) else {
        misuse(format!("{what} was given no {kind:?}"));
        return usize::MAX;
    };
    let o = w(|w| w.objs[i].clone());
    if o.kind != kind {
        misuse(format!("{what} was given a {:?} for a {kind:?}", o.kind));
        return usize::MAX;
    }
    if o.count == 0 {
        misuse(format!("{what} was given a {kind:?} that is gone"));
    }
    i
}
fn make(kind: Kind, keeps: Vec<usize>, needs: Vec<usize>) -> *const c_void {
    if w(|w| std::mem::take(&mut w.refuse)) {
        return std::ptr::null();
    }
    for &k in keeps.iter() {
        if k != usize::MAX {
            w(|w| w.objs[k].count += 1);
        }
    }
    w(|w| {
        w.objs.push(Obj { kind, count: 1, keeps, needs });
        ptr(w.objs.len() - 1)
    })
}
fn release(i: usize) {
    let gone = w(|w| {
        let o = &mut w.objs[i];
        if o.count == 0 {
            return None;
        }
        o.count -= 1;
        (o.count == 0).then(|| (o.kind, std::mem::take(&mut o.keeps)))
    });
    let Some((kind, keeps)) = gone else { return };
    if let Some(by) = w(|w| w.objs.iter().find(|o| o.count > 0 && o.needs.contains(&i)).map(|o| o.kind)) {
        misuse(format!("a {kind:?} was released before a {by:?} that needs it"));
    }
    for k in keeps {
        if k != usize::MAX {
            release(k);
        }
    }
}
/// Counts references; false if it is no object of this world.
pub fn counted(p: *const c_void, by: isize) -> bool {
    let Some(i) = index(p) else { return false };
    let o = w(|w| w.objs[i].clone());
    if o.count == 0 {
        misuse(format!("a {:?} that is gone was counted", o.kind));
    } else if by > 0 {
        w(|w| w.objs[i].count += 1);
    } else {
        release(i);
    }
    true
}
fn deleted(p: *const c_void, kind: Kind) {
    if p.is_null() {
        return;
    }
    let i = used(p, kind, "deletion");
    if i != usize::MAX {
        release(i);
    }
}
fn asked(s: String) {
    w(|w| w.asked.push(s));
}
fn yes() -> bool {
    w(|w| w.yes)
}
unsafe fn text(p: *const c_char) -> String {
    if p.is_null() { "-".into() } else { unsafe { CStr::from_ptr(p) }.to_str().unwrap_or("?").into() }
}
unsafe fn list<T: Copy>(p: *const T, n: usize) -> Vec<T> {
    if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n) }.to_vec() }
}
type P = *const c_void;

#[repr(C)]
#[derive(Clone, Copy)]
struct Ip {
    v6: bool,
    a: [u8; 16],
}
#[repr(C)]
#[derive(Clone, Copy)]
struct IpPort {
    ip: Ip,
    port: u16,
}
impl Ip {
    fn show(&self) -> String {
        if self.v6 { Ipv6Addr::from(self.a).to_string() } else { Ipv4Addr::new(self.a[0], self.a[1], self.a[2], self.a[3]).to_string() }
    }
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Level {
    id: u32,
    level: u16,
}
#[repr(C)]
struct Servers {
    servers: P,
    n: usize,
}

macro_rules! on {
    ($kind:ident: $($f:ident($($a:ident: $t:ty),*) $(-> $r:ty)? = $show:expr $(=> $ret:expr)?;)*) => { $(
        #[unsafe(no_mangle)]
        extern "C" fn $f(on: P $(, $a: $t)*) $(-> $r)? {
            let i = used(on, $kind, stringify!($f));
            #[allow(unused_unsafe)]
            let s: String = unsafe { $show };
            asked(format!("{} {i} {s}", stringify!($f)));
            $($ret)?
        }
    )* };
}
on! { Pc:
    Rust_updateTransceivers(p: *const u32, n: usize) -> bool = format!("{:?}", list(p, n)) => yes();
    Rust_createOffer(o: P) = format!("{}", used(o, Csd, "createOffer"));
    Rust_createAnswer(o: P) = format!("{}", used(o, Csd, "createAnswer"));
    Rust_createSendOnlyTransceiver() -> bool = String::new() => yes();
    Rust_setLocalDescription(o: P, d: P) = { let d = (used(o, Ssd, "setLocalDescription"), used(d, Desc, "setLocalDescription")); took(d.1); format!("{d:?}") };
    Rust_setRemoteDescription(o: P, d: P) = { let d = (used(o, Ssd, "setRemoteDescription"), used(d, Desc, "setRemoteDescription")); took(d.1); format!("{d:?}") };
    Rust_setOutgoingMediaEnabled(e: bool) = format!("{e}");
    Rust_setIncomingMediaEnabled(e: bool) -> bool = format!("{e}") => yes();
    Rust_setAudioPlayoutEnabled(e: bool) = format!("{e}");
    Rust_setAudioRecordingEnabled(e: bool) = format!("{e}");
    Rust_addIceCandidateFromSdp(s: *const c_char) -> bool = text(s) => yes();
    Rust_addIceCandidateFromServer(ip: Ip, port: u16, tcp: bool, host: *const c_char) -> bool = format!("{} {port} {tcp} {}", ip.show(), text(host)) => yes();
    Rust_removeIceCandidates(p: *const IpPort, n: usize) -> bool = format!("{:?}", list(p, n).iter().map(|a| format!("{} {}", a.ip.show(), a.port)).collect::<Vec<_>>()) => yes();
    Rust_createSharedIceGatherer() -> P = String::new() => make(Gatherer, vec![], vec![]);
    Rust_useSharedIceGatherer(g: P) -> bool = format!("{}", used(g, Gatherer, "useSharedIceGatherer")) => yes();
    Rust_getStats(o: P) = format!("{}", used(o, Stats, "getStats"));
    Rust_setSendBitrates(a: i32, b: i32, c: i32) = format!("{a} {b} {c}");
    Rust_sendRtp(pt: u8, seq: u16, ts: u32, ssrc: u32, p: *const u8, n: usize) -> bool = format!("{pt} {seq} {ts} {ssrc} {:?}", list(p, n)) => yes();
    Rust_receiveRtp(pt: u8, e: bool) -> bool = format!("{pt} {e}") => yes();
    Rust_configureAudioEncoders(c: *const [i32; 9]) = format!("{:?}", *c);
    Rust_configureAudioDecoders(c: *const Decoder) = format!("{} {} {:?}", (*c).len, (*c).complexity, list((*c).data, (*c).len as usize));
    Rust_getAudioLevels(c: *mut u16, r: *mut Level, room: usize, n: *mut usize) = { levels(c, r, room, n); String::new() };
    Rust_getLastBandwidthEstimateBps() -> u32 = String::new() => w(|w| w.estimate);
    Rust_setRtpPacketObserver(o: P) = if o.is_null() { "-".into() } else { format!("{}", used(o, RtpObserver, "setRtpPacketObserver")) };
    Rust_closePeerConnection() = String::new();
    Rust_regatherOnAllNetworks() = String::new();
}
on! { Audio: Rust_setAudioTrackEnabled(e: bool) = format!("{e}"); }
on! { Video:
    Rust_setVideoTrackEnabled(e: bool) = format!("{e}");
    Rust_setVideoTrackContentHint(e: bool) = format!("{e}");
}
on! { Source:
    Rust_pushVideoFrame(b: P) = format!("{}", used(b, Buffer, "pushVideoFrame"));
    Rust_adaptOutputVideoFormat(x: u16, y: u16, fps: u8) = format!("{x} {y} {fps}");
}
on! { Buffer:
    Rust_convertVideoFrameBufferToRgba(out: *mut u8) -> bool = { let p = w(|w| w.picture.clone()); std::ptr::copy(p.as_ptr(), out, p.len()); String::new() } => yes();
    Rust_getVideoFrameBufferAsI420() -> *const u8 = String::new() => if yes() { w(|w| w.picture.as_ptr()) } else { std::ptr::null() };
    Rust_scaleVideoFrameBuffer(x: isize, y: isize) -> P = format!("{x} {y}") => make(Buffer, vec![], vec![]);
    Rust_copyAndRotateVideoFrameBuffer(r: i32) -> P = format!("{r}") => make(Buffer, vec![], vec![]);
}
#[repr(C)]
struct Decoder {
    data: *const u8,
    len: i32,
    complexity: i32,
}
fn took(d: usize) {
    if d != usize::MAX {
        release(d);
    }
}
unsafe fn levels(c: *mut u16, r: *mut Level, room: usize, n: *mut usize) {
    let (mine, theirs) = w(|w| w.levels.clone());
    unsafe {
        *c = mine;
        *n = theirs.len().min(room);
        for (k, (id, level)) in theirs.into_iter().take(room).enumerate() {
            *r.add(k) = Level { id, level };
        }
    }
}
macro_rules! copies {
    ($($f:ident: $of:expr;)*) => { $(
        #[unsafe(no_mangle)]
        extern "C" fn $f(x: u32, y: u32, p: *const u8) -> P {
            asked(format!("{} {x} {y} {:?}", stringify!($f), unsafe { list(p, (x * y) as usize * $of / 2) }));
            make(Buffer, vec![], vec![])
        }
    )* };
}
copies! {
    Rust_copyVideoFrameBufferFromI420: 3;
    Rust_copyVideoFrameBufferFromNv12: 3;
    Rust_copyVideoFrameBufferFromRgba: 8;
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createPeerConnectionFactoryWrapper(native: P) -> P {
    let n = used(native, Native, "createPeerConnectionFactoryWrapper");
    make(Factory, vec![n], vec![])
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createPeerConnection(factory: P, observer: P, kind: u8, jitter: *const [i32; 3], rtcp: i32, servers: *const Servers, audio: P, video: P) -> P {
    let what = "createPeerConnection";
    let (f, o, a) = (used(factory, Factory, what), used(observer, PcObserver, what), used(audio, Audio, what));
    let mut keeps = vec![a];
    let mut v = "-".to_string();
    if !video.is_null() {
        let i = used(video, Video, what);
        v = i.to_string();
        keeps.push(i);
    }
    asked(unsafe { format!("createPeerConnection {f} {o} {kind} {:?} {rtcp} {} {a} {v}", *jitter, (*servers).n) });
    if w(|w| w.objs.iter().zip(0..).any(|(o, i)| keeps.contains(&i) && o.count == 0)) {
        return std::ptr::null();
    }
    make(Pc, keeps, vec![f, o])
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createAudioTrack(factory: P) -> P {
    let f = used(factory, Factory, "createAudioTrack");
    make(Audio, vec![], vec![f])
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createVideoSource() -> P {
    make(Source, vec![], vec![])
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createVideoTrack(factory: P, source: P) -> P {
    let (f, s) = (used(factory, Factory, "createVideoTrack"), used(source, Source, "createVideoTrack"));
    make(Video, vec![s], vec![f])
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createPeerConnectionObserver(_o: P, _cbs: P, e: bool, v: bool, c: bool) -> P {
    asked(format!("createPeerConnectionObserver {e} {v} {c}"));
    make(PcObserver, vec![], vec![])
}
#[unsafe(no_mangle)]
extern "C" fn Rust_deletePeerConnectionObserver(o: P) {
    deleted(o, PcObserver);
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createRtpObserver(_o: P, _cbs: P) -> P {
    make(RtpObserver, vec![], vec![])
}
#[unsafe(no_mangle)]
extern "C" fn Rust_deleteRtpObserver(o: P) {
    deleted(o, RtpObserver);
}
#[unsafe(no_mangle)]
extern "C" fn Rust_deleteSessionDescription(d: P) {
    deleted(d, Desc);
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createCreateSessionDescriptionObserver(_o: P, _cbs: P) -> P {
    make(Csd, vec![], vec![])
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createSetSessionDescriptionObserver(_o: P, _cbs: P) -> P {
    make(Ssd, vec![], vec![])
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createStatsObserver(_o: P, _cbs: P) -> P {
    make(Stats, vec![], vec![])
}
static LOGGER: std::sync::Mutex<Option<(extern "C" fn(i32, *const c_char), i32)>> = std::sync::Mutex::new(None);
#[unsafe(no_mangle)]
extern "C" fn Rust_setLogger(cbs: *const extern "C" fn(i32, *const c_char), min: i32) {
    *LOGGER.lock().unwrap() = Some((unsafe { *cbs }, min));
}

// --- the application ------------------------------------------------------------------------------------------------
struct App;
impl PeerConnectionObserverTrait for App {
    fn log_id(&self) -> &dyn std::fmt::Display {
        &"app"
    }
    fn handle_ice_candidate_gathered(&mut self, _: signaling::IceCandidate, _: &str, _: Option<TransportProtocol>) -> RingResult<()> {
        Ok(())
    }
    fn handle_ice_candidate_removed(&mut self, _: SocketAddr) -> RingResult<()> {
        Ok(())
    }
    fn handle_ice_connection_state_changed(&mut self, _: IceConnectionState) -> RingResult<()> {
        Ok(())
    }
    fn handle_ice_network_route_changed(&mut self, _: NetworkRoute) -> RingResult<()> {
        Ok(())
    }
    fn handle_incoming_media_added(&mut self, _: MediaStream) -> RingResult<()> {
        Ok(())
    }
    fn handle_incoming_audio_added(&mut self, _: AudioTrack) -> RingResult<()> {
        Ok(())
    }
    fn handle_incoming_video_added(&mut self, _: VideoTrack, _: Option<u32>) -> RingResult<()> {
        Ok(())
    }
    fn handle_incoming_video_frame(&self, _: u32, _: VideoFrameMetadata, _: Option<VideoFrame>) -> RingResult<()> {
        Ok(())
    }
    fn get_media_ciphertext_buffer_size(&mut self, _: bool, n: usize) -> usize {
        n
    }
    fn encrypt_media(&mut self, _: &[u8], _: &mut [u8]) -> RingResult<usize> {
        Ok(0)
    }
    fn get_media_plaintext_buffer_size(&mut self, _: u32, _: bool, n: usize) -> usize {
        n
    }
    fn decrypt_media(&mut self, _: u32, _: &[u8], _: &mut [u8]) -> RingResult<usize> {
        Ok(0)
    }
}
impl RtpObserverTrait for App {
    fn handle_rtp_received(&mut self, _: rtp::Header, _: &[u8]) {}
}

fn said(e: impl std::fmt::Display) -> String {
    format!("ringrtc says {e}")
}
fn fresh() {
    crate::reset();
    w(|w| *w = World { yes: true, ..Default::default() });
}
fn alive() -> Vec<usize> {
    w(|w| (0..w.objs.len()).filter(|&i| w.objs[i].count > 0).collect())
}
fn last() -> usize {
    w(|w| w.objs.len()).wrapping_sub(1)
}
fn took_asked() -> Vec<String> {
    w(|w| std::mem::take(&mut w.asked))
}
fn factory() -> PeerConnectionFactory {
    let native = webrtc::Arc::from_owned(unsafe { OwnedRc::from_ptr(make(Native, vec![], vec![]) as *const _) });
    unsafe { PeerConnectionFactory::from_native_factory(native) }
}
fn connection(f: &PeerConnectionFactory, audio: AudioTrack, video: Option<VideoTrack>, kind: u64) -> RingResult<PeerConnection> {
    let mut app = App;
    let o = PeerConnectionObserver::new(Borrowed::from_ptr(&mut app as *mut App as *const App), kind & 1 == 1, kind & 2 != 0, kind & 4 != 0)?;
    let jitter = AudioJitterBufferConfig { max_packets: 50, min_delay_ms: 1, max_target_delay_ms: 500, fast_accelerate: true };
    let kind = [RffiPeerConnectionKind::Direct, RffiPeerConnectionKind::Relayed, RffiPeerConnectionKind::GroupCall][kind as usize % 3..].iter().next().map(|k| match k {
        RffiPeerConnectionKind::Direct => RffiPeerConnectionKind::Direct,
        RffiPeerConnectionKind::Relayed => RffiPeerConnectionKind::Relayed,
        RffiPeerConnectionKind::GroupCall => RffiPeerConnectionKind::GroupCall,
    });
    f.create_peer_connection(o, kind.unwrap(), &jitter, 5000, &[IceServer::none()], audio, video)
}
fn description() -> (SessionDescription, usize) {
    let p = make(Desc, vec![], vec![]);
    (SessionDescription::new(Unique::from(unsafe { Owned::from_ptr(p as *const _) }), None), last())
}
/// All there was is gone.
fn nothing_left() -> Result<(), String> {
    misused()?;
    let left = alive();
    ensure!(left.is_empty(), "never released: {:?}", left.iter().map(|&i| w(|w| w.objs[i].kind)).collect::<Vec<_>>());
    Ok(())
}

const IPS: usize = 6;
fn ip(i: usize) -> IpAddr {
    [
        IpAddr::V4(Ipv4Addr::new(1, 2, 3, 4)),
        IpAddr::V4(Ipv4Addr::UNSPECIFIED),
        IpAddr::V4(Ipv4Addr::BROADCAST),
        IpAddr::V6(Ipv6Addr::LOCALHOST),
        IpAddr::V6(Ipv6Addr::new(0x1122, 0x3344, 0x5566, 0x7788, 0x99aa, 0xbbcc, 0xddee, 0xff01)),
        IpAddr::V6("::ffff:9.8.7.6".parse().unwrap()),
    ][i]
}
const TEXTS: [&str; 5] = ["", "candidate:1 1 udp 2 1.2.3.4 5 typ host", "é語🎤", "a\0b", "\0"];
const RATES: [Option<u64>; 5] = [None, Some(0), Some(1), Some(30_000), Some(i32::MAX as u64)];
const LENS: [usize; 4] = [0, 1, 2, 100];

/// One question to one of two connections (and what belongs to them), with WebRTC's answer.  What is expected of it is
/// the line that WebRTC logs, and the result.
fn question(op: u64, v: u64, which: usize, yes: bool) -> Result<bool, String> {
    fresh();
    w(|w| w.yes = yes);
    let f = factory();
    let mut pcs = vec![];
    let mut ids = vec![];
    for _ in 0..2 {
        pcs.push(connection(&f, f.create_outgoing_audio_track().map_err(said)?, None, 0).map_err(said)?);
        ids.push(last());
    }
    let (pc, id) = (&pcs[which], ids[which]);
    let v = v as usize;
    took_asked();
    // what WebRTC has to be asked, and whether the answer is what it has to be
    let mut want: Vec<String> = vec![];
    let mut ok = true;
    let mut on = |name: &str, args: String| want.push(format!("Rust_{name} {id} {args}"));
    let flag = v % 2 == 1;
    match op {
        0 => {
            let ids: Vec<u32> = (0..LENS[v % 4] as u32).map(|k| k * 16 + 5).collect();
            on("updateTransceivers", format!("{ids:?}"));
            ok = pc.update_transceivers(&ids).is_ok() == yes;
        }
        1 | 2 => {
            let _other = create_csd_observer(None);
            let o = create_csd_observer(Some(flag));
            let k = last();
            on(["createOffer", "createAnswer"][op as usize - 1], k.to_string());
            if op == 1 { pc.create_offer(&o) } else { pc.create_answer(&o) }
        }
        3 => {
            on("createSendOnlyTransceiver", String::new());
            ok = pc.create_send_only_transceiver() == yes;
        }
        4 | 5 => {
            let (_other, _) = description();
            let (d, k) = description();
            let o = create_ssd_observer();
            on(["setLocalDescription", "setRemoteDescription"][op as usize - 4], format!("{:?}", (last(), k)));
            if op == 4 { pc.set_local_description(&o, d) } else { pc.set_remote_description(&o, d) }
        }
        6 => {
            on("setOutgoingMediaEnabled", flag.to_string());
            pc.set_outgoing_media_enabled(flag);
        }
        7 => {
            on("setIncomingMediaEnabled", flag.to_string());
            pc.set_incoming_media_enabled(flag);
        }
        8 => {
            on("setAudioPlayoutEnabled", flag.to_string());
            pc.set_audio_playout_enabled(flag);
        }
        9 => {
            on("setAudioRecordingEnabled", flag.to_string());
            pc.set_audio_recording_enabled(flag);
        }
        10 => {
            let t = TEXTS[v % 5];
            if !t.contains('\0') {
                on("addIceCandidateFromSdp", t.into());
            }
            ok = pc.add_ice_candidate_from_sdp(t).is_ok() == (yes && !t.contains('\0'));
        }
        11 => {
            let (a, port, p) = (ip(v % IPS), [0, 1, 443, 65535][v / IPS % 4], v / IPS / 4 % 7);
            let host = (p >= 2).then(|| TEXTS[p - 2]);
            let protocol = match p {
                0 => Protocol::Udp,
                1 => Protocol::Tcp,
                _ => Protocol::Tls(host.unwrap()),
            };
            let good = !host.is_some_and(|h| h.contains('\0'));
            if good {
                on("addIceCandidateFromServer", format!("{a} {port} {} {}", p > 0, host.unwrap_or("-")));
            }
            ok = pc.add_ice_candidate_from_server(a, port, protocol).is_ok() == (yes && good);
        }
        12 => {
            let n = LENS[v % 4];
            let l: Vec<SocketAddr> = (0..n).map(|k| SocketAddr::new(ip((k + v / 4) % IPS), (k * 655) as u16)).collect();
            on("removeIceCandidates", format!("{:?}", l.iter().map(|a| format!("{} {}", a.ip(), a.port())).collect::<Vec<_>>()));
            pc.remove_ice_candidates(l.into_iter());
        }
        13 => {
            on("createSharedIceGatherer", String::new());
            w(|w| w.refuse = flag);
            let g = pc.create_shared_ice_gatherer();
            ok = g.is_ok() == !flag;
            if let Ok(g) = g {
                let k = last();
                on("useSharedIceGatherer", k.to_string());
                ok = pc.use_shared_ice_gatherer(&g).is_ok() == yes;
            }
        }
        14 => {
            let o = create_stats_observer(CallId::new(1), Duration::from_secs(1));
            on("getStats", last().to_string());
            ok = pc.get_stats(&o).is_ok();
        }
        15 => {
            let r = [RATES[v % 5], RATES[v / 5 % 5], RATES[v / 25 % 5]];
            let d = |r: Option<u64>| r.map(DataRate::from_bps);
            let s = |r: Option<u64>| r.map_or(-1, |r| r as i64);
            on("setSendBitrates", format!("{} {} {}", s(r[0]), s(r[1]), s(r[2])));
            ok = pc.set_send_rates(SendRates { min: d(r[0]), start: d(r[1]), max: d(r[2]) }).is_ok();
        }
        16 => {
            let payload: Vec<u8> = (0..LENS[v % 4]).map(|k| (k * 7 + 1) as u8).collect();
            let h = [(0, 0, 0, 0), (255, 65535, u32::MAX, u32::MAX), (101, 1, 0x1234_5678, 0x0fed_cba9)][v / 4 % 3];
            on("sendRtp", format!("{} {} {} {} {payload:?}", h.0, h.1, h.2, h.3));
            ok = pc.send_rtp(rtp::Header { pt: h.0, seqnum: h.1, timestamp: h.2, ssrc: h.3 }, &payload).is_ok() == yes;
        }
        17 => {
            let pt = [0, 101, 127, 255][v / 2 % 4];
            on("receiveRtp", format!("{pt} {flag}"));
            ok = pc.receive_rtp(pt, flag).is_ok() == yes;
        }
        18 => {
            let c = AudioEncoderConfig { initial_packet_size_ms: 20 + v as i32, max_bitrate_bps: 40_000, complexity: 7, adaptation: 3, ..Default::default() };
            on("configureAudioEncoders", format!("{:?}", [20 + v as i32, 60, 60, 32_000, 32_000, 40_000, -1000, 7, 3]));
            pc.configure_audio_encoders(&c);
        }
        19 => {
            let weights: Option<Vec<u8>> = [None, Some(vec![]), Some(vec![1, 2, 3]), Some((0..100).collect())][v % 4].clone();
            let complexity = [None, Some(0), Some(10)][v / 4 % 3];
            let n = weights.clone().unwrap_or_default();
            on("configureAudioDecoders", format!("{} {} {n:?}", n.len(), complexity.map_or(-1, |c| c as i32)));
            pc.configure_audio_decoders(&AudioDecoderConfig { dnn_weights: weights.map(mcstd::sync::Arc::new), complexity });
        }
        20 => {
            let theirs: Vec<(u32, u16)> = (0..LENS[v % 4] as u32).map(|k| (k * 16 + 1, (65535 - k * 7) as u16)).collect();
            let mine = [0, 1, 65535][v / 4 % 3];
            w(|w| w.levels = (mine, theirs.clone()));
            on("getAudioLevels", String::new());
            let (m, t) = pc.get_audio_levels();
            let t: Vec<_> = t.into_iter().map(|l| (l.demux_id, l.level)).collect();
            ensure!((m, &t) == (mine, &theirs), "levels {:?} are read as {:?}", (mine, theirs), (m, t));
        }
        21 => {
            let e = [0, 1, 30_000, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX][v % 6];
            w(|w| w.estimate = e);
            on("getLastBandwidthEstimateBps", String::new());
            ok = pc.get_last_bandwidth_estimate() == DataRate::from_bps(e as u64);
        }
        22 => {
            if flag {
                on("setRtpPacketObserver", "-".into());
                pc.set_rtp_packet_observer(Borrowed::null());
            } else {
                let mut app = App;
                let o = RtpObserver::new(Borrowed::from_ptr(&mut app as *mut App as *const App)).map_err(said)?.into_rffi();
                on("setRtpPacketObserver", last().to_string());
                pc.set_rtp_packet_observer(o.borrow());
            }
        }
        23 => {
            on("closePeerConnection", String::new());
            pc.close();
        }
        24 => {
            on("regatherOnAllNetworks", String::new());
            pc.regather_on_all_networks();
        }
        25 => {
            let ts = [f.create_outgoing_audio_track().map_err(said)?, f.create_outgoing_audio_track().map_err(said)?];
            want.push(format!("Rust_setAudioTrackEnabled {} {flag}", last() - 1 + which));
            ts[which].set_enabled(flag);
        }
        26 | 27 => {
            let s = f.create_outgoing_video_source().map_err(said)?;
            let ts = [f.create_outgoing_video_track(&s).map_err(said)?, f.create_outgoing_video_track(&s).map_err(said)?];
            want.push(format!("Rust_{} {} {flag}", ["setVideoTrackEnabled", "setVideoTrackContentHint"][op as usize - 26], last() - 1 + which));
            if op == 26 { ts[which].set_enabled(flag) } else { ts[which].set_content_hint(flag) }
        }
        28 => {
            let ss = [f.create_outgoing_video_source().map_err(said)?, f.create_outgoing_video_source().map_err(said)?];
            let (x, y, fps) = ([0, 640, 65535][v % 3], [1, 480, 65535][v / 3 % 3], [0, 30, 255][v / 9 % 3]);
            want.push(format!("Rust_adaptOutputVideoFormat {} {x} {y} {fps}", last() - 1 + which));
            ss[which].adapt_output_format(x, y, fps);
        }
        29 => {
            // a picture of a size and format, pushed
            let ss = [f.create_outgoing_video_source().map_err(said)?, f.create_outgoing_video_source().map_err(said)?];
            let s = last() - 1 + which;
            let (x, y) = ([2, 4, 6][v % 3], [2, 4, 8][v / 3 % 3]);
            let (format, name, of) = [(VideoPixelFormat::I420, "I420", 3), (VideoPixelFormat::Nv12, "Nv12", 3), (VideoPixelFormat::Rgba, "Rgba", 8)][v / 9 % 3];
            let bytes: Vec<u8> = (0..(x * y) as usize * of / 2).map(|k| (k * 3 + 1) as u8).collect();
            want.push(format!("Rust_copyVideoFrameBufferFrom{name} {x} {y} {bytes:?}"));
            let p = VideoFrame::copy_from_slice(x, y, format, &bytes);
            ensure!((p.width(), p.height()) == (x, y), "a picture of {x}x{y} is {}x{}", p.width(), p.height());
            want.push(format!("Rust_pushVideoFrame {s} {}", last()));
            ss[which].push_frame(p);
            ensure!(alive().iter().all(|&i| w(|w| w.objs[i].kind) != Buffer), "a picture that was pushed is never released");
        }
        30 => {
            // a picture that is read, and made larger or smaller
            let (x, y) = ([2, 4, 6][v % 3], [2, 4, 8][v / 3 % 3]);
            let p = VideoFrame::copy_from_slice(x, y, VideoPixelFormat::Rgba, &vec![0; (x * y * 4) as usize]);
            let k = last();
            took_asked();
            let rgba: Vec<u8> = (0..(x * y * 4) as usize).map(|k| (k * 5 + 3) as u8).collect();
            w(|w| w.picture = rgba.clone());
            let mut out = vec![0; rgba.len()];
            want.push(format!("Rust_convertVideoFrameBufferToRgba {k} "));
            ensure!(p.to_rgba(&mut out) == yes && out == rgba, "a picture was read wrongly");
            let i420: Vec<u8> = (0..(x * y * 3 / 2) as usize).map(|k| (k * 9 + 3) as u8).collect();
            w(|w| w.picture = i420.clone());
            want.push(format!("Rust_getVideoFrameBufferAsI420 {k} "));
            ensure!(p.as_i420().map(|p| p.to_vec()) == yes.then_some(i420), "a picture was read wrongly");
            let (a, b) = ([1, 640][v / 9 % 2], [1, 480][v / 18 % 2]);
            want.push(format!("Rust_scaleVideoFrameBuffer {k} {a} {b}"));
            let q = p.scale(a, b);
            ensure!((q.width(), q.height(), p.width(), p.height()) == (a, b, x, y), "a picture of {x}x{y} was scaled to {a}x{b} and is {}x{}, and itself {}x{}", q.width(), q.height(), p.width(), p.height());
            want.push(format!("Rust_convertVideoFrameBufferToRgba {} ", last()));
            q.to_rgba(&mut vec![0; 4.max(w(|w| w.picture.len()))]);
        }
        31 => {
            // who is asked to make a connection, of what
            let s = f.create_outgoing_video_source().map_err(said)?;
            let video = if v / 8 % 2 == 1 { Some(f.create_outgoing_video_track(&s).map_err(said)?) } else { None };
            let t = last();
            let audio = f.create_outgoing_audio_track().map_err(said)?;
            let a = last();
            let made = connection(&f, audio.clone(), video.clone(), v as u64 % 8);
            let v = v % 8;
            want.push(format!("createPeerConnectionObserver {} {} {}", v & 1 == 1, v & 2 != 0, v & 4 != 0));
            want.push(format!("createPeerConnection 1 {} {} [50, 1, 500] 5000 1 {a} {}", a + 1, v % 3, if video.is_some() { t.to_string() } else { "-".into() }));
            ok = made.is_ok();
        }
        32 => {
            // what cannot be made is an error, and leaves nothing behind
            let s = f.create_outgoing_video_source().map_err(said)?;
            let before = alive();
            w(|w| w.refuse = true);
            let made = match v % 6 {
                0 => f.create_outgoing_audio_track().is_ok(),
                1 => f.create_outgoing_video_source().is_ok(),
                2 => f.create_outgoing_video_track(&s).is_ok(),
                3 => pc.create_shared_ice_gatherer().is_ok(),
                4 => {
                    w(|w| w.refuse = false);
                    let a = f.create_outgoing_audio_track().map_err(said)?;
                    let v = f.create_outgoing_video_track(&s).map_err(said)?;
                    let mut app = App;
                    let o = PeerConnectionObserver::new(Borrowed::from_ptr(&mut app as *mut App as *const App), true, true, true).map_err(said)?;
                    w(|w| w.refuse = true);
                    f.create_peer_connection(o, RffiPeerConnectionKind::Direct, &AudioJitterBufferConfig::default(), 1, &[], a, Some(v)).is_ok()
                }
                _ => {
                    let mut app = App;
                    PeerConnectionObserver::new(Borrowed::from_ptr(&mut app as *mut App as *const App), true, true, true).is_ok()
                }
            };
            took_asked();
            ensure!(!made, "something was made of nothing (kind {})", v % 6);
            let after = alive();
            ensure!(before == after, "what could not be made (kind {}) left {:?} behind", v % 6, after.iter().filter(|i| !before.contains(i)).map(|&i| w(|w| w.objs[i].kind)).collect::<Vec<_>>());
        }
        _ => {
            // a picture that is turned: C37 looks at sizes
            let p = VideoFrame::copy_from_slice(2, 2, VideoPixelFormat::Nv12, &[0; 6]);
            drop(p);
            took_asked();
        }
    }
    let got = took_asked();
    ensure!(got == want, "question {op} ({v}) to connection {which}: WebRTC was asked {got:?} instead of {want:?}");
    ensure!(ok, "question {op} ({v}): WebRTC's answer {yes} is not what is reported");
    drop(pcs);
    drop(f);
    nothing_left()?;
    Ok(true)
}

/// The same with what is long, large, many or odd.
fn large(i: u64) -> Result<bool, String> {
    fresh();
    let f = factory();
    let mut pcs = vec![];
    let mut ids = vec![];
    for _ in 0..2 {
        pcs.push(connection(&f, f.create_outgoing_audio_track().map_err(said)?, None, 0).map_err(said)?);
        ids.push(last());
    }
    let (op, v) = (i % 12, (i / 12) as usize);
    let which = v % 2;
    let (pc, id) = (&pcs[which], ids[which]);
    let n = [101usize, 127, 128, 129, 255, 256, 257, 1024, 1200, 1500, 4097, 65_535, 65_536, 70_001][v % 14];
    took_asked();
    let mut want = vec![];
    let mut on = |name: &str, args: String| want.push(format!("Rust_{name} {id} {args}"));
    let mut ok = true;
    let odd = [" a=candidate:1 1 udp 2 1.2.3.4 5 typ host", "candidate:1 1 udp 2 1.2.3.4 5 typ host\r\n", " ", "Candidate:1 1 UDP 2 FE80::1 5 typ HOST", "TURN.Example.ORG", "turn.example.org.", "\u{feff}x", "a\tb"];
    let text = match odd.get(v % 22) {
        Some(t) => t.to_string(),
        None => (0..n).map(|k| (b'!' + ((k * 7 + v) % 90) as u8) as char).collect(),
    };
    let text = text.as_str();
    match op {
        0 => {
            let ids: Vec<u32> = (0..n as u32).map(|k| k.wrapping_mul(0x9E37_79B0)).collect();
            on("updateTransceivers", format!("{ids:?}"));
            ok = pc.update_transceivers(&ids).is_ok();
        }
        1 => {
            on("addIceCandidateFromSdp", text.into());
            ok = pc.add_ice_candidate_from_sdp(text).is_ok();
        }
        2 => {
            let (a, port) = (ip(v % IPS), (v * 997) as u16);
            on("addIceCandidateFromServer", format!("{a} {port} true {text}"));
            ok = pc.add_ice_candidate_from_server(a, port, Protocol::Tls(text)).is_ok();
        }
        3 => {
            let l: Vec<SocketAddr> = (0..n).map(|k| SocketAddr::new(ip((k + v) % IPS), (k * 655) as u16)).collect();
            on("removeIceCandidates", format!("{:?}", l.iter().map(|a| format!("{} {}", a.ip(), a.port())).collect::<Vec<_>>()));
            pc.remove_ice_candidates(l.into_iter());
        }
        4 => {
            let payload: Vec<u8> = (0..n).map(|k| (k * 7 + k / 256) as u8).collect();
            on("sendRtp", format!("101 {v} {v} {v} {payload:?}"));
            ok = pc.send_rtp(rtp::Header { pt: 101, seqnum: v as u16, timestamp: v as u32, ssrc: v as u32 }, &payload).is_ok();
        }
        5 => {
            let r = [1_499, 65_537, 1_234_567, 16_777_217, 2_000_000_001, 999][v % 6];
            let s = |k: usize| (v >> k & 1 == 1).then(|| r + k as u64);
            on("setSendBitrates", [0, 1, 2].map(|k| s(k).map_or(-1, |r| r as i64).to_string()).join(" "));
            let d = |k: usize| s(k).map(DataRate::from_bps);
            ok = pc.set_send_rates(SendRates { min: d(0), start: d(1), max: d(2) }).is_ok();
        }
        6 => {
            let weights: Vec<u8> = (0..n).map(|k| (k * 3) as u8).collect();
            let c = [0, 10, 11, 127, 128, 255][v % 6];
            on("configureAudioDecoders", format!("{n} {c} {weights:?}"));
            pc.configure_audio_decoders(&AudioDecoderConfig { dnn_weights: Some(mcstd::sync::Arc::new(weights)), complexity: Some(c) });
        }
        7 => {
            let x = [10, 80, 100, 120, -1, i32::MAX][v % 6];
            let r = [6_000, 65_537, 510_000, i32::MAX][v % 4];
            let c = AudioEncoderConfig { initial_packet_size_ms: x, min_packet_size_ms: x - 1, max_packet_size_ms: x, initial_bitrate_bps: r, min_bitrate_bps: r - 1, max_bitrate_bps: r, complexity: 255, adaptation: -1, ..Default::default() };
            on("configureAudioEncoders", format!("{:?}", [x, x - 1, x, r, r - 1, r, -1000, 255, -1]));
            pc.configure_audio_encoders(&c);
        }
        8 => {
            // as many levels as there is room for
            let k = 60 + v as u32;
            let theirs: Vec<(u32, u16)> = (0..k).map(|k| (k.wrapping_mul(0x9E37_79B0), (k * 655) as u16)).collect();
            w(|w| w.levels = (v as u16, theirs.clone()));
            on("getAudioLevels", String::new());
            let (m, t) = pc.get_audio_levels();
            let t: Vec<_> = t.into_iter().map(|l| (l.demux_id, l.level)).collect();
            ensure!(m == v as u16 && t.len() >= theirs.len().min(100) && t[..] == theirs[..t.len()], "of {k} levels, {} are read", t.len());
        }
        9 => {
            let s = f.create_outgoing_video_source().map_err(said)?;
            let k = last();
            let (x, y) = [(1920u32, 1080u32), (2, 65_538), (65_538, 2), (300, 300), (256, 256), (640, 360)][v % 6];
            let (format, name, of) = [(VideoPixelFormat::I420, "I420", 3), (VideoPixelFormat::Nv12, "Nv12", 3), (VideoPixelFormat::Rgba, "Rgba", 8)][v / 6 % 3];
            let bytes: Vec<u8> = (0..(x * y) as usize * of / 2).map(|k| (k * 3 + k / 256) as u8).collect();
            want.push(format!("Rust_copyVideoFrameBufferFrom{name} {x} {y} {bytes:?}"));
            let p = VideoFrame::copy_from_slice(x, y, format, &bytes);
            ensure!((p.width(), p.height()) == (x, y), "a picture of {x}x{y} is {}x{}", p.width(), p.height());
            want.push(format!("Rust_pushVideoFrame {k} {}", last()));
            s.push_frame(p);
        }
        _ => {
            let (x, y) = [(1920u32, 1080u32), (2, 65_538), (65_538, 2), (300, 300), (256, 256), (640, 360)][v % 6];
            let p = VideoFrame::copy_from_slice(x, y, VideoPixelFormat::I420, &vec![0; (x * y * 3 / 2) as usize]);
            let k = last();
            took_asked();
            let i420: Vec<u8> = (0..(x * y * 3 / 2) as usize).map(|k| (k * 9 + k / 256) as u8).collect();
            w(|w| w.picture = i420.clone());
            want.push(format!("Rust_getVideoFrameBufferAsI420 {k} "));
            ensure!(p.as_i420() == Some(&i420[..]), "a picture of {x}x{y} was read wrongly");
            let (a, b) = [(65_536, 1), (1, 70_000), (131_072, 65_537), (1280, 720)][v / 6 % 4];
            want.push(format!("Rust_scaleVideoFrameBuffer {k} {a} {b}"));
            let q = p.scale(a, b);
            ensure!((q.width(), q.height()) == (a, b), "scaled to {a}x{b}, a picture is {}x{}", q.width(), q.height());
        }
    }
    let got = took_asked();
    let short = |l: &Vec<String>| l.iter().map(|s| s.chars().take(200).collect::<String>()).collect::<Vec<_>>();
    ensure!(got == want, "operation {op} (size {n}): WebRTC was asked {:?} instead of {:?}", short(&got), short(&want));
    ensure!(ok, "operation {op} (size {n}) failed");
    drop(pcs);
    drop(f);
    nothing_left()?;
    Ok(true)
}

// --- who lives how long ---------------------------------------------------------------------------------------------
#[derive(Default)]
struct Held {
    factories: Vec<PeerConnectionFactory>,
    audio: Vec<(AudioTrack, usize)>,
    sources: Vec<(VideoSource, usize)>,
    video: Vec<(VideoTrack, usize)>,
    pcs: Vec<(PeerConnection, usize)>,
    gatherers: Vec<(IceGatherer, usize)>,
    descriptions: Vec<(SessionDescription, usize)>,
    factory: usize,
    frozen: bool,
    reached: Vec<&'static str>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    MoreFactory,
    LessFactory,
    Audio,
    CloneAudio(usize),
    DropAudio(usize),
    Source,
    CloneSource(usize),
    DropSource(usize),
    Video(usize),
    CloneVideo(usize),
    DropVideo(usize),
    /// with the audio track and video track (given away or kept), and whether it works out
    Pc(bool, Option<bool>, bool),
    DropPc(usize),
    Gather(usize),
    Share(usize, usize),
    DropGatherer(usize),
    Describe,
    Set(usize, bool),
    DropDescription,
    /// everything is dropped, from the first to the last or the other way round
    End(bool),
}
use Act as A;
impl Held {
    fn new() -> Held {
        let mut h = Held::default();
        h.factories.push(factory());
        h.factory = last();
        h
    }
    fn acts(&self) -> Vec<Act> {
        if self.frozen {
            return vec![];
        }
        let mut a = vec![];
        let f = self.factories.len();
        if f > 0 {
            a.push(A::LessFactory);
            if f < 2 {
                a.push(A::MoreFactory);
            }
            if self.audio.len() < 2 {
                a.push(A::Audio);
            }
            if self.sources.len() < 2 {
                a.push(A::Source);
            }
            if !self.sources.is_empty() && self.video.len() < 2 {
                a.extend((0..self.sources.len()).map(A::Video));
            }
            if !self.audio.is_empty() && self.pcs.len() < 2 {
                for give in [true, false] {
                    a.push(A::Pc(give, None, true));
                    if !self.video.is_empty() {
                        for v in [true, false] {
                            a.push(A::Pc(give, Some(v), true));
                            a.push(A::Pc(give, Some(v), false));
                        }
                    }
                }
            }
        }
        for i in 0..self.audio.len() {
            a.push(A::DropAudio(i));
            if self.audio.len() < 2 {
                a.push(A::CloneAudio(i));
            }
        }
        for i in 0..self.sources.len() {
            a.push(A::DropSource(i));
            if self.sources.len() < 2 {
                a.push(A::CloneSource(i));
            }
        }
        for i in 0..self.video.len() {
            a.push(A::DropVideo(i));
            if self.video.len() < 2 {
                a.push(A::CloneVideo(i));
            }
        }
        for p in 0..self.pcs.len() {
            a.push(A::DropPc(p));
            if self.gatherers.is_empty() {
                a.push(A::Gather(p));
            }
            a.extend((0..self.gatherers.len()).map(|g| A::Share(p, g)));
            if !self.descriptions.is_empty() {
                a.push(A::Set(p, true));
                a.push(A::Set(p, false));
            }
        }
        a.extend((0..self.gatherers.len()).map(A::DropGatherer));
        a.push(if self.descriptions.is_empty() { A::Describe } else { A::DropDescription });
        a.push(A::End(false));
        a.push(A::End(true));
        a
    }
    fn apply(&mut self, a: Act) -> Result<(), String> {
        match a {
            A::MoreFactory => {
                let f = self.factories[0].clone();
                self.factories.push(f);
            }
            A::LessFactory => drop(self.factories.remove(0)),
            A::Audio => self.audio.push((self.factories[0].create_outgoing_audio_track().map_err(said)?, last())),
            A::CloneAudio(i) => {
                let t = (self.audio[i].0.clone(), self.audio[i].1);
                self.audio.push(t);
            }
            A::DropAudio(i) => drop(self.audio.remove(i)),
            A::Source => self.sources.push((self.factories[0].create_outgoing_video_source().map_err(said)?, last())),
            A::CloneSource(i) => {
                let t = (self.sources[i].0.clone(), self.sources[i].1);
                self.sources.push(t);
            }
            A::DropSource(i) => drop(self.sources.remove(i)),
            A::Video(s) => self.video.push((self.factories[0].create_outgoing_video_track(&self.sources[s].0).map_err(said)?, last())),
            A::CloneVideo(i) => {
                let t = (self.video[i].0.clone(), self.video[i].1);
                self.video.push(t);
            }
            A::DropVideo(i) => drop(self.video.remove(i)),
            A::Pc(give, video, good) => {
                let audio = if give { self.audio.remove(0).0 } else { self.audio[0].0.clone() };
                let video = video.map(|give| if give { self.video.remove(0).0 } else { self.video[0].0.clone() });
                if video.is_some() {
                    self.reached.push("with_video");
                }
                let mut app = App;
                let o = PeerConnectionObserver::new(Borrowed::from_ptr(&mut app as *mut App as *const App), true, true, true).map_err(said)?;
                w(|w| w.refuse = !good);
                let made = self.factories[0].create_peer_connection(o, RffiPeerConnectionKind::Direct, &AudioJitterBufferConfig::default(), 1, &[], audio, video);
                misused()?;
                ensure!(made.is_ok() == good, "a connection was made: {}", made.is_ok());
                match made {
                    Ok(p) => self.pcs.push((p, last())),
                    Err(_) => self.reached.push("no_connection"),
                }
            }
            A::DropPc(i) => {
                if self.factories.is_empty() {
                    self.reached.push("connection_outlives_factory");
                }
                drop(self.pcs.remove(i));
            }
            A::Gather(p) => self.gatherers.push((self.pcs[p].0.create_shared_ice_gatherer().map_err(said)?, last())),
            A::Share(p, g) => {
                self.reached.push("shared");
                self.pcs[p].0.use_shared_ice_gatherer(&self.gatherers[g].0).map_err(said)?;
            }
            A::DropGatherer(g) => drop(self.gatherers.remove(g)),
            A::Describe => self.descriptions.push(description()),
            A::Set(p, local) => {
                let (d, _) = self.descriptions.remove(0);
                let o = create_ssd_observer();
                if local { self.pcs[p].0.set_local_description(&o, d) } else { self.pcs[p].0.set_remote_description(&o, d) }
                self.reached.push("described");
            }
            A::DropDescription => drop(self.descriptions.remove(0)),
            A::End(back) => {
                self.frozen = true;
                if back {
                    self.descriptions.clear();
                    self.gatherers.clear();
                    self.pcs.clear();
                    self.video.clear();
                    self.sources.clear();
                    self.audio.clear();
                    self.factories.clear();
                } else {
                    self.factories.clear();
                    self.audio.clear();
                    self.sources.clear();
                    self.video.clear();
                    self.pcs.clear();
                    self.gatherers.clear();
                    self.descriptions.clear();
                }
                nothing_left()?;
                self.reached.push("all_released");
            }
        }
        misused()?;
        // what is left is what the application can still reach
        let mut want: Vec<usize> = vec![];
        let connected = !self.factories.is_empty() || !self.audio.is_empty() || !self.video.is_empty() || !self.pcs.is_empty();
        if connected {
            want.push(self.factory);
        }
        let ids = |l: Vec<usize>, want: &mut Vec<usize>| want.extend(l);
        ids(self.audio.iter().map(|t| t.1).collect(), &mut want);
        ids(self.sources.iter().map(|t| t.1).collect(), &mut want);
        ids(self.video.iter().map(|t| t.1).collect(), &mut want);
        ids(self.gatherers.iter().map(|t| t.1).collect(), &mut want);
        ids(self.descriptions.iter().map(|t| t.1).collect(), &mut want);
        for p in &self.pcs {
            want.push(p.1);
            want.extend(w(|w| w.objs[p.1].needs.clone()));
        }
        // and what WebRTC keeps for it
        let mut i = 0;
        while i < want.len() {
            want.extend(w(|w| w.objs[want[i]].keeps.clone()));
            i += 1;
        }
        want.sort();
        want.dedup();
        let got = alive();
        ensure!(
            got == want,
            "after {a:?}: alive are {:?}, reachable {:?}",
            got.iter().map(|&i| (w(|w| w.objs[i].kind), i)).collect::<Vec<_>>(),
            want.iter().map(|&i| (w(|w| w.objs[i].kind), i)).collect::<Vec<_>>()
        );
        // and it can be used
        took_asked();
        for (t, i) in &self.audio {
            t.set_enabled(true);
            ensure!(took_asked() == [format!("Rust_setAudioTrackEnabled {i} true")], "another track was enabled");
        }
        for (t, i) in &self.video {
            t.set_enabled(false);
            ensure!(took_asked() == [format!("Rust_setVideoTrackEnabled {i} false")], "another track was disabled");
        }
        for (p, i) in &self.pcs {
            p.close();
            ensure!(took_asked() == [format!("Rust_closePeerConnection {i} ")], "another connection was closed");
        }
        for (s, i) in &self.sources {
            s.adapt_output_format(1, 1, 1);
            ensure!(took_asked() == [format!("Rust_adaptOutputVideoFormat {i} 1 1 1")], "another source was changed");
        }
        misused()
    }
    /// Objects in the order in which they were made, with what they refer to, and who is held how often.
    fn key(&self) -> String {
        let live = alive();
        let name = |i: usize| live.iter().position(|&l| l == i).map_or("-".into(), |p| p.to_string());
        let objs: Vec<String> = live
            .iter()
            .map(|&i| {
                let o = w(|w| w.objs[i].clone());
                format!("{:?}{}{:?}{:?}", o.kind, o.count, o.keeps.iter().map(|&k| name(k)).collect::<Vec<_>>(), o.needs.iter().map(|&k| name(k)).collect::<Vec<_>>())
            })
            .collect();
        let l = |v: Vec<usize>| v.into_iter().map(name).collect::<Vec<_>>().join(",");
        format!(
            "{objs:?}|{}|{}|{}|{}|{}|{}|{}|{}",
            self.factories.len(),
            l(self.audio.iter().map(|t| t.1).collect()),
            l(self.sources.iter().map(|t| t.1).collect()),
            l(self.video.iter().map(|t| t.1).collect()),
            l(self.pcs.iter().map(|t| t.1).collect()),
            l(self.gatherers.iter().map(|t| t.1).collect()),
            self.descriptions.len(),
            self.frozen
        )
    }
}

/// What WebRTC logs.
fn logged(i: u64) -> Result<bool, String> {
    fresh();
    let (severity, t, f) = ((i % 5) as i32, i as usize / 5 % 6, i as usize / 30 % 6);
    let filter = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace][f];
    // verbose, info, warning, error, none
    let min = [4, 3, 2, 1, 0, 0][f];
    let (cb, asked) = {
        // one process has one logger
        let mut l = LOGGER_TURN.lock().unwrap();
        *l += 1;
        webrtc::logging::set_logger(filter);
        LOGGER.lock().unwrap().take().ok_or("WebRTC was given no logger")?
    };
    ensure!(asked == min, "WebRTC was asked for severity {asked} at {filter}, not {min}");
    let message = ["", "plain", "é語🎤", "{} %s {0}", "a\nb", "\u{fffd}"][t];
    let mut bytes = CString::new(message).unwrap().into_bytes();
    if t == 5 {
        bytes = vec![0xff];
    }
    let c = CString::new(bytes).unwrap();
    sound::listen();
    cb(severity, c.as_ptr());
    let got = sound::heard_at();
    let want: Vec<(log::Level, String)> = match severity {
        0 => vec![(log::Level::Debug, message.into())],
        1 => vec![(log::Level::Info, message.into())],
        2 => vec![(log::Level::Warn, message.into())],
        3 => vec![(log::Level::Error, message.into())],
        _ => vec![],
    };
    ensure!(got == want, "WebRTC's {message:?} at severity {severity} was logged as {got:?}");
    Ok(!want.is_empty())
}
static LOGGER_TURN: std::sync::Mutex<u64> = std::sync::Mutex::new(0);

pub fn c45() {
    let mut c = Check::new("C45", "exploration");
    c.rule("Every operation on one of two connections and on what belongs to them, with every combination of a set of arguments and of WebRTC's answers; every sequence, to the depth, of making, cloning, giving away and dropping up to two factory handles, audio tracks, video sources, video tracks and connections, a gatherer and a description, with connections that cannot be made; every severity, filter and a set of texts of log lines.");
    c.assume("WebRTC's C++ is a stand-in in the harness that counts references, knows who needs whom and checks how it is used; send rates fit 31 bits.");
    let cfg = mc::Config { bound: 0, ..Default::default() };
    const V: u64 = 168;
    c.enumerate("questions", 34 * V * 4, |i| {
        let (which, yes, v, op) = (i as usize % 2, i / 2 % 2 == 1, i / 4 % V, i / 4 / V);
        crate::run(|| question(op, v, which, yes), &cfg).0
    });
    c.enumerate("large", 12 * 84, |i| crate::run(|| large(i), &cfg).0);
    let mut l = mclib::bfs::Limits::depth(pick(7, 9));
    l.max_seconds = pick(120., 1200.);
    let st = c.paths("lifetimes", l, &|choices| {
        crate::run(
            || {
                fresh();
                let mut h = Held::new();
                for &c in choices {
                    let a = h.acts()[c as usize];
                    mc::log(format!("{a:?}"));
                    h.apply(a)?;
                }
                h.reached.sort();
                h.reached.dedup();
                Ok(mclib::paths::Step { key: h.key(), arity: h.acts().len(), reached: h.reached.clone() })
            },
            &cfg,
        )
    });
    eprintln!("   {:?} {:?}", st.levels, st.covered);
    c.enumerate("logs", 5 * 6 * 6, logged);
    c.sample(json!({"questions": 34, "variants": V}));
    c.finish();
}
