//! WebRTC, as ringrtc's audio code sees it: it owns the factory, asks the audio device module for what it
//! needs through the table of functions it was given, plays and takes samples.
use std::{
    cell::RefCell,
    ffi::{c_char, c_void},
    time::Duration,
};

use mcstd::mc;

use crate::sound::{WINDOW, misuse};

macro_rules! table {
    ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        /// AudioDeviceCallbacks of WebRTC's side.
        #[repr(C)]
        #[derive(Clone, Copy)]
        pub struct Callbacks { $(pub $f: extern "C" fn(*const c_void $(, $t)*) -> $r,)* }
        impl Rtc { $(pub fn $f(&self $(, $a: $t)*) -> $r { (self.cbs.$f)(self.adm $(, $a)*) })* }
    };
}
table! {
    active_audio_layer(l: *mut i32) -> i32;
    init() -> i32;
    terminate() -> i32;
    initialized() -> bool;
    playout_devices() -> i16;
    recording_devices() -> i16;
    playout_device_name(i: u16, n: *mut u8, g: *mut u8) -> i32;
    recording_device_name(i: u16, n: *mut u8, g: *mut u8) -> i32;
    playout_is_available(b: *mut bool) -> i32;
    init_playout() -> i32;
    playout_is_initialized() -> bool;
    recording_is_available(b: *mut bool) -> i32;
    init_recording() -> i32;
    recording_is_initialized() -> bool;
    start_playout() -> i32;
    stop_playout() -> i32;
    playing() -> bool;
    start_recording() -> i32;
    stop_recording() -> i32;
    recording() -> bool;
    init_speaker() -> i32;
    speaker_is_initialized() -> bool;
    init_microphone() -> i32;
    microphone_is_initialized() -> bool;
    speaker_volume_is_available(b: *mut bool) -> i32;
    set_speaker_volume(v: u32) -> i32;
    speaker_volume(v: *mut u32) -> i32;
    max_speaker_volume(v: *mut u32) -> i32;
    min_speaker_volume(v: *mut u32) -> i32;
    microphone_volume_is_available(b: *mut bool) -> i32;
    set_microphone_volume(v: u32) -> i32;
    microphone_volume(v: *mut u32) -> i32;
    max_microphone_volume(v: *mut u32) -> i32;
    min_microphone_volume(v: *mut u32) -> i32;
    speaker_mute_is_available(b: *mut bool) -> i32;
    set_speaker_mute(b: bool) -> i32;
    speaker_mute(b: *mut bool) -> i32;
    microphone_mute_is_available(b: *mut bool) -> i32;
    set_microphone_mute(b: bool) -> i32;
    microphone_mute(b: *mut bool) -> i32;
    stereo_playout_is_available(b: *mut bool) -> i32;
    set_stereo_playout(b: bool) -> i32;
    stereo_playout(b: *mut bool) -> i32;
    stereo_recording_is_available(b: *mut bool) -> i32;
    set_stereo_recording(b: bool) -> i32;
    stereo_recording(b: *mut bool) -> i32;
    playout_delay(d: *mut u16) -> i32;
}

/// RffiAudioConfig of WebRTC's side.
#[repr(C)]
struct AudioConfig {
    flags: [bool; 4],
    adm: *const c_void,
    callbacks: *const Callbacks,
    free: unsafe extern "C" fn(*const c_void),
}
struct Factory {
    count: usize,
    adm: *const c_void,
    free: unsafe extern "C" fn(*const c_void),
}
#[derive(Clone, Copy)]
pub struct Rtc {
    pub cbs: Callbacks,
    pub adm: *const c_void,
}
/// How WebRTC answers when asked for sound.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Answer {
    Full,
    Some(usize),
    Fail(i32),
}
#[derive(Default)]
pub struct State {
    factories: Vec<Factory>,
    pub made: Option<Rtc>,
    /// no factory can be made
    pub refuse: bool,
    pub flags: [bool; 4],
    pub answers: Vec<Answer>,
    pub asked: usize,
    /// every sample given to be played
    pub given: Vec<i16>,
    next: i16,
    /// WebRTC takes this long to answer
    pub slow: Duration,
    /// every window of samples that was recorded
    pub taken: Vec<i16>,
    pub windows: usize,
    /// from this window on, WebRTC refuses what was recorded
    pub full: Option<usize>,
}
thread_local! {
    static S: RefCell<State> = RefCell::new(State::default());
}
pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    S.with(|s| f(&mut s.borrow_mut()))
}
pub fn reset() {
    with(|s| *s = State::default());
}
pub fn settled() -> Result<(), String> {
    with(|s| {
        if s.factories.iter().any(|f| f.count > 0) {
            return Err("a factory was never released".into());
        }
        Ok(())
    })
}

#[unsafe(no_mangle)]
extern "C" fn Rust_createPeerConnectionFactory(config: *const c_void, _network: bool, _trials: *const c_char) -> *const c_void {
    let c = unsafe { &*(config as *const AudioConfig) };
    if with(|s| s.refuse) {
        // the owner of the module is made first, and released when the rest fails
        unsafe { (c.free)(c.adm) };
        return std::ptr::null();
    }
    with(|s| {
        s.flags = c.flags;
        s.made = (!c.adm.is_null()).then(|| Rtc { cbs: unsafe { *c.callbacks }, adm: c.adm });
        s.factories.push(Factory { count: 1, adm: c.adm, free: c.free });
        (0x1000 + s.factories.len() - 1) as *const c_void
    })
}
fn counted(rc: *const c_void, by: isize) {
    if rc.is_null() || crate::peers::counted(rc, by) {
        return;
    }
    let i = (rc as usize).wrapping_sub(0x1000);
    let last = with(|s| match s.factories.get_mut(i) {
        Some(f) if f.count > 0 => {
            f.count = f.count.wrapping_add_signed(by);
            if f.count == 0 { Some((f.adm, f.free)) } else { None }
        }
        _ => {
            misuse("a factory that is gone was counted");
            None
        }
    });
    if let Some((adm, free)) = last {
        unsafe { free(adm) };
    }
}
#[unsafe(no_mangle)]
extern "C" fn Rust_incRc(rc: *const c_void) {
    counted(rc, 1);
}
#[unsafe(no_mangle)]
extern "C" fn Rust_decRc(rc: *const c_void) {
    counted(rc, -1);
}
#[unsafe(no_mangle)]
extern "C" fn Rust_needMorePlayData(n: usize, bytes: usize, channels: usize, rate: u32, out: *mut i16, n_out: *mut usize, elapsed: *mut i64, ntp: *mut i64) -> i32 {
    if (n, bytes, channels, rate) != (WINDOW, 2, 1, 48000) {
        misuse(format!("WebRTC was asked for {n} samples of {bytes} bytes, {channels} channels, {rate} Hz"));
        return -1;
    }
    let slow = with(|s| s.slow);
    if !slow.is_zero() {
        mc::sleep(slow);
    }
    with(|s| {
        let a = s.answers.get(s.asked).copied().unwrap_or(Answer::Full);
        s.asked += 1;
        unsafe {
            *elapsed = s.asked as i64;
            *ntp = -1;
        }
        let (r, k) = match a {
            Answer::Full => (0, n),
            Answer::Some(k) => (0, k),
            Answer::Fail(e) => (e, n),
        };
        for i in 0..k {
            let v = if r == 0 {
                s.next = s.next.wrapping_add(1);
                s.given.push(s.next);
                s.next
            } else {
                -1
            };
            unsafe { *out.add(i) = v };
        }
        unsafe { *n_out = k };
        r
    })
}
#[unsafe(no_mangle)]
extern "C" fn Rust_recordedDataIsAvailable(
    data: *const i16, n: usize, bytes: usize, channels: usize, rate: u32, _delay: u32, _drift: i32, _level: u32, _key: bool, level: *mut u32, _time: i64,
) -> i32 {
    if (n, bytes, channels, rate) != (WINDOW, 2, 1, 48000) {
        misuse(format!("WebRTC was told of {n} samples of {bytes} bytes, {channels} channels, {rate} Hz"));
        return -1;
    }
    unsafe { *level = 0 };
    with(|s| {
        if s.full.is_some_and(|f| s.windows >= f) {
            return -1;
        }
        s.windows += 1;
        s.taken.extend_from_slice(unsafe { std::slice::from_raw_parts(data, n) });
        0
    })
}
