//! The C library below ringrtc's audio code, and the sound hardware: devices, streams and who gets which samples.
//! State is per execution (all threads of one execution are fibers of one OS thread).
use std::{
    cell::{Cell, RefCell},
    ffi::{CString, c_char, c_int, c_long, c_uint, c_void},
    ptr,
    sync::atomic::{AtomicUsize, Ordering::SeqCst},
};

use cubeb_sys::*;
use mcstd::mc;

pub const IN: usize = 0;
pub const OUT: usize = 1;
pub const WINDOW: usize = 480;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dev {
    pub devid: usize,
    pub id: Option<String>,
    pub name: Option<String>,
    pub kind: u32,
    pub enabled: bool,
    pub pref: u32,
}
impl Dev {
    pub fn new(devid: usize, id: &str, name: &str, kind: u32, pref: u32) -> Dev {
        Dev { devid, id: Some(id.into()), name: Some(name.into()), kind, enabled: true, pref }
    }
}

type DataCb = unsafe extern "C" fn(*mut cubeb_stream, *mut c_void, *const c_void, *mut c_void, c_long) -> c_long;
type StateCb = unsafe extern "C" fn(*mut cubeb_stream, *mut c_void, cubeb_state);
#[derive(Clone, Copy)]
pub struct Strm {
    pub ctx: usize,
    pub dir: usize,
    pub device: usize,
    pub alive: bool,
    pub running: bool,
    /// it reported an error or drained
    pub ended: bool,
    pub latency: u32,
    pub busy: bool,
    data: DataCb,
    state: StateCb,
    user: usize,
}
type ListCb = unsafe extern "C" fn(*mut cubeb, *mut c_void);
#[derive(Default)]
struct Ctx {
    alive: bool,
    listeners: [Option<(ListCb, usize)>; 2],
    busy: [bool; 2],
}
/// What fails.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Fail {
    pub context: bool,
    pub register: [bool; 2],
    pub enumerate: bool,
    pub open: [bool; 2],
    pub start: [bool; 2],
    pub latency: bool,
}
#[derive(Default)]
pub struct World {
    ctxs: Vec<Ctx>,
    pub lists: [Vec<Dev>; 2],
    pub streams: Vec<Strm>,
    collections: usize,
    pub fail: Fail,
    /// the latency every stream has, in frames
    pub latency: u32,
    /// ... that is possible, in frames
    pub min_latency: u32,
    /// what nobody may do with the library
    pub misuse: Vec<String>,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
    static LOGGED: RefCell<Option<Vec<(log::Level, String)>>> = const { RefCell::new(None) };
    static TALK: Cell<bool> = const { Cell::new(false) };
}
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}
pub fn reset() {
    with(|w| *w = World { latency: 960, min_latency: 480, ..Default::default() });
}
pub fn misuse(s: impl Into<String>) {
    with(|w| w.misuse.push(s.into()));
}

pub fn set_list(dir: usize, l: Vec<Dev>) {
    with(|w| w.lists[dir] = l);
}
/// The system tells that its devices are others now.
pub fn announce(dir: usize) {
    let n = with(|w| w.ctxs.len());
    for i in 0..n {
        let cb = with(|w| {
            let c = &mut w.ctxs[i];
            let l = if c.alive { c.listeners[dir] } else { None };
            c.busy[dir] = l.is_some();
            l
        });
        if let Some((f, user)) = cb {
            unsafe { f(ctx_ptr(i), user as *mut c_void) };
            with(|w| w.ctxs[i].busy[dir] = false);
        }
    }
}
pub fn open(dir: usize) -> Vec<(usize, Strm)> {
    with(|w| w.streams.iter().copied().enumerate().filter(|s| s.1.alive && s.1.dir == dir).collect())
}
pub fn running(dir: usize) -> Option<usize> {
    with(|w| w.streams.iter().position(|s| s.alive && s.running && s.dir == dir))
}
/// Everything was given back.
pub fn settled() -> Result<(), String> {
    with(|w| {
        for (i, s) in w.streams.iter().enumerate() {
            if s.alive {
                return Err(format!("stream {i} was never closed"));
            }
        }
        if w.ctxs.iter().any(|c| c.alive) {
            return Err("the audio library was never closed".into());
        }
        if w.collections > 0 {
            return Err(format!("{} lists of devices were never freed", w.collections));
        }
        Ok(())
    })
}

/// Stream `i` wants `n` frames, or has recorded `input`.  What it was given, or nothing if it is not running.
pub fn pump(i: usize, n: usize, input: Option<&[i16]>) -> Option<(i64, Vec<[i16; 2]>)> {
    let s = with(|w| {
        let s = &mut w.streams[i];
        if !s.alive || !s.running || s.busy {
            return None;
        }
        s.busy = true;
        Some(*s)
    })?;
    let mut out = vec![[0x7a7a_i16; 2]; n + 8];
    let r = unsafe {
        match input {
            Some(x) => (s.data)(stream_ptr(i), s.user as *mut c_void, x.as_ptr() as *const c_void, ptr::null_mut(), x.len() as c_long),
            None => (s.data)(stream_ptr(i), s.user as *mut c_void, ptr::null(), out.as_mut_ptr() as *mut c_void, n as c_long),
        }
    } as i64;
    if out[n..] != [[0x7a7a_i16; 2]; 8] {
        misuse("more frames were written than asked for");
    }
    let state = if r < 0 {
        Some(CUBEB_STATE_ERROR)
    } else if r < n as i64 {
        Some(CUBEB_STATE_DRAINED)
    } else {
        None
    };
    if r > n as i64 {
        misuse(format!("{r} frames of {n} were taken"));
    }
    with(|w| {
        let s = &mut w.streams[i];
        s.busy = false;
        if state.is_some() {
            s.running = false;
            s.ended = true;
        }
    });
    if let Some(x) = state {
        unsafe { (s.state)(stream_ptr(i), s.user as *mut c_void, x) };
    }
    out.truncate(r.max(0) as usize);
    Some((r, out))
}

fn ctx_ptr(i: usize) -> *mut cubeb {
    (0x100 + i) as *mut cubeb
}
fn stream_ptr(i: usize) -> *mut cubeb_stream {
    (0x10000 + i) as *mut cubeb_stream
}
fn ctx_of(w: &mut World, c: *mut cubeb, what: &str) -> usize {
    let i = (c as usize).wrapping_sub(0x100);
    if w.ctxs.get(i).is_none_or(|c| !c.alive) {
        w.misuse.push(format!("{what} with a library that was closed"));
        return 0;
    }
    i
}
/// The stream, if it may be used.
fn stream_of(s: *mut cubeb_stream, what: &str) -> Option<usize> {
    let i = (s as usize).wrapping_sub(0x10000);
    with(|w| {
        let Some(s) = w.streams.get(i) else {
            w.misuse.push(format!("{what} of no stream"));
            return None;
        };
        if !s.alive || !w.ctxs[s.ctx].alive {
            w.misuse.push(format!("{what} of a stream that was closed"));
            return None;
        }
        Some(i)
    })
}

#[unsafe(no_mangle)]
extern "C" fn cubeb_init(context: *mut *mut cubeb, _name: *const c_char, _backend: *const c_char) -> c_int {
    with(|w| {
        if w.fail.context {
            return CUBEB_ERROR;
        }
        w.ctxs.push(Ctx { alive: true, ..Default::default() });
        unsafe { *context = ctx_ptr(w.ctxs.len() - 1) };
        CUBEB_OK
    })
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_get_backend_id(context: *mut cubeb) -> *const c_char {
    with(|w| ctx_of(w, context, "a question"));
    c"pretend".as_ptr()
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_get_min_latency(context: *mut cubeb, _p: *mut cubeb_stream_params, latency: *mut c_uint) -> c_int {
    with(|w| {
        ctx_of(w, context, "a question");
        if w.fail.latency {
            return CUBEB_ERROR;
        }
        unsafe { *latency = w.min_latency };
        CUBEB_OK
    })
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_destroy(context: *mut cubeb) {
    let i = with(|w| {
        let i = ctx_of(w, context, "closing");
        if let Some(k) = w.streams.iter().position(|s| s.alive && s.ctx == i) {
            w.misuse.push(format!("the library was closed before stream {k}"));
        }
        if w.collections > 0 {
            w.misuse.push("the library was closed before a list of devices was freed".into());
        }
        i
    });
    mc::wait_until(&|| with(|w| w.ctxs.get(i).is_none_or(|c| c.busy == [false; 2])), None);
    with(|w| {
        if let Some(c) = w.ctxs.get_mut(i) {
            c.alive = false;
        }
    });
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_register_device_collection_changed(context: *mut cubeb, kind: cubeb_device_type, cb: cubeb_device_collection_changed_callback, user: *mut c_void) -> c_int {
    let dir = dir_of(kind);
    let i = with(|w| ctx_of(w, context, "listening for devices"));
    if cb.is_some() && with(|w| w.fail.register[dir]) {
        return CUBEB_ERROR;
    }
    mc::wait_until(&|| with(|w| w.ctxs.get(i).is_none_or(|c| !c.busy[dir])), None);
    with(|w| {
        if let Some(c) = w.ctxs.get_mut(i) {
            c.listeners[dir] = cb.map(|f| (f, user as usize));
        }
    });
    CUBEB_OK
}
fn dir_of(kind: cubeb_device_type) -> usize {
    match kind {
        CUBEB_DEVICE_TYPE_INPUT => IN,
        CUBEB_DEVICE_TYPE_OUTPUT => OUT,
        _ => {
            misuse("devices of both directions at once");
            IN
        }
    }
}
fn text(s: &Option<String>) -> *const c_char {
    s.as_ref().map_or(ptr::null(), |s| CString::new(s.as_str()).unwrap().into_raw() as *const c_char)
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_enumerate_devices(context: *mut cubeb, kind: cubeb_device_type, out: *mut cubeb_device_collection) -> c_int {
    let dir = dir_of(kind);
    with(|w| {
        ctx_of(w, context, "listing devices");
        if w.fail.enumerate {
            return CUBEB_ERROR;
        }
        let l: Box<[cubeb_device_info]> = w.lists[dir]
            .iter()
            .map(|d| cubeb_device_info {
                devid: d.devid as *const c_void,
                device_id: text(&d.id),
                friendly_name: text(&d.name),
                group_id: text(&d.id.as_ref().map(|i| format!("{i}/group"))),
                vendor_name: ptr::null(),
                device_type: d.kind,
                state: if d.enabled { CUBEB_DEVICE_STATE_ENABLED } else { CUBEB_DEVICE_STATE_UNPLUGGED },
                preferred: d.pref,
                format: CUBEB_DEVICE_FMT_S16LE,
                default_format: CUBEB_DEVICE_FMT_S16LE,
                max_channels: 2,
                default_rate: 48000,
                max_rate: 48000,
                min_rate: 48000,
                latency_lo: 480,
                latency_hi: 960,
            })
            .collect();
        w.collections += 1;
        unsafe {
            (*out).count = l.len();
            (*out).device = Box::into_raw(l) as *mut cubeb_device_info;
        }
        CUBEB_OK
    })
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_device_collection_destroy(context: *mut cubeb, c: *mut cubeb_device_collection) -> c_int {
    with(|w| {
        ctx_of(w, context, "freeing a list of devices");
        let l = unsafe { Box::from_raw(ptr::slice_from_raw_parts_mut((*c).device, (*c).count)) };
        for d in &l {
            for p in [d.device_id, d.friendly_name, d.group_id] {
                if !p.is_null() {
                    drop(unsafe { CString::from_raw(p as *mut c_char) });
                }
            }
        }
        if w.collections == 0 {
            w.misuse.push("a list of devices was freed twice".into());
        } else {
            w.collections -= 1;
        }
    });
    CUBEB_OK
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_init(
    context: *mut cubeb, stream: *mut *mut cubeb_stream, _name: *const c_char, in_dev: cubeb_devid, in_params: *mut cubeb_stream_params, out_dev: cubeb_devid,
    out_params: *mut cubeb_stream_params, latency: c_uint, data: cubeb_data_callback, state: cubeb_state_callback, user: *mut c_void,
) -> c_int {
    with(|w| {
        let ctx = ctx_of(w, context, "opening a stream");
        let dir = if in_params.is_null() { OUT } else { IN };
        if in_params.is_null() == out_params.is_null() {
            w.misuse.push("a stream that does not have one direction".into());
        }
        if w.fail.open[dir] {
            return CUBEB_ERROR_DEVICE_UNAVAILABLE;
        }
        let (p, device) = unsafe { if dir == IN { (*in_params, in_dev) } else { (*out_params, out_dev) } };
        let want = if dir == IN { (1, CUBEB_LAYOUT_MONO) } else { (2, CUBEB_LAYOUT_STEREO) };
        if (p.format, p.rate, p.channels, p.layout) != (CUBEB_SAMPLE_S16LE, 48000, want.0, want.1) || p.prefs != CUBEB_STREAM_PREF_VOICE {
            w.misuse.push(format!("a stream was opened with {p:?}"));
        }
        let least = if w.fail.latency { WINDOW as u32 } else { w.min_latency.max(WINDOW as u32) };
        if latency != least {
            w.misuse.push(format!("a stream was opened with a latency of {latency} frames, not {least}"));
        }
        w.streams.push(Strm {
            ctx,
            dir,
            device: device as usize,
            alive: true,
            running: false,
            ended: false,
            latency,
            busy: false,
            data: data.unwrap(),
            state: state.unwrap(),
            user: user as usize,
        });
        unsafe { *stream = stream_ptr(w.streams.len() - 1) };
        CUBEB_OK
    })
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_start(s: *mut cubeb_stream) -> c_int {
    let Some(i) = stream_of(s, "the start") else { return CUBEB_ERROR };
    let s = with(|w| {
        let fail = w.fail.start[w.streams[i].dir];
        let s = &mut w.streams[i];
        if fail {
            return None;
        }
        s.running = true;
        Some(*s)
    });
    match s {
        Some(s) => {
            unsafe { (s.state)(stream_ptr(i), s.user as *mut c_void, CUBEB_STATE_STARTED) };
            CUBEB_OK
        }
        None => CUBEB_ERROR,
    }
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_stop(s: *mut cubeb_stream) -> c_int {
    let Some(i) = stream_of(s, "the stop") else { return CUBEB_ERROR };
    // a callback that runs is waited for
    mc::wait_until(&|| with(|w| !w.streams[i].busy), None);
    let (was, s) = with(|w| (std::mem::replace(&mut w.streams[i].running, false), w.streams[i]));
    if was {
        unsafe { (s.state)(stream_ptr(i), s.user as *mut c_void, CUBEB_STATE_STOPPED) };
    }
    CUBEB_OK
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_destroy(s: *mut cubeb_stream) {
    let Some(i) = stream_of(s, "the closing") else { return };
    mc::wait_until(&|| with(|w| !w.streams[i].busy), None);
    with(|w| {
        w.streams[i].running = false;
        w.streams[i].alive = false;
    });
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_user_ptr(s: *mut cubeb_stream) -> *mut c_void {
    stream_of(s, "a use").map_or(ptr::null_mut(), |i| with(|w| w.streams[i].user as *mut c_void))
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_get_latency(s: *mut cubeb_stream, latency: *mut c_uint) -> c_int {
    let Some(_) = stream_of(s, "the latency") else { return CUBEB_ERROR };
    with(|w| {
        if w.fail.latency {
            return CUBEB_ERROR;
        }
        unsafe { *latency = w.latency };
        CUBEB_OK
    })
}

/// Never asked for.
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_register_device_changed_callback(_s: *mut cubeb_stream, _f: cubeb_device_changed_callback) -> c_int {
    CUBEB_ERROR_NOT_SUPPORTED
}

// ------------------------------------------------------------------------------------------ logs

static LOG_LEVEL: AtomicUsize = AtomicUsize::new(0);
static LOG_CB: AtomicUsize = AtomicUsize::new(0);
#[unsafe(no_mangle)]
extern "C" fn cubeb_set_log_callback(level: cubeb_log_level, cb: cubeb_log_callback) -> c_int {
    LOG_CB.store(cb.map_or(0, |f| f as usize), SeqCst);
    LOG_LEVEL.store(level as usize, SeqCst);
    CUBEB_OK
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_log_get_level() -> cubeb_log_level {
    LOG_LEVEL.load(SeqCst) as cubeb_log_level
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_log_get_callback() -> cubeb_log_callback {
    None
}
/// The library logs a line.
pub fn library_logs(line: &[u8]) {
    let f = LOG_CB.load(SeqCst);
    if f != 0 {
        let f: unsafe extern "C" fn(*const c_char, ...) = unsafe { std::mem::transmute(f) };
        let l = CString::new(line).unwrap();
        unsafe { f(c"%s".as_ptr(), l.as_ptr()) };
    }
}

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGED.with(|l| l.borrow().is_some()) || TALK.with(|t| t.get())
    }
    fn log(&self, r: &log::Record) {
        if TALK.with(|t| t.get()) {
            mc::log(format!("{}: {}", r.level(), r.args()));
        }
        let line = format!("{}", r.args());
        LOGGED.with(|l| {
            if let Some(l) = l.borrow_mut().as_mut() {
                l.push((r.level(), line));
            }
        });
    }
    fn flush(&self) {}
}
pub fn install_log() {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
}
/// Collects what is logged from now on.
pub fn listen() {
    LOGGED.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn heard() -> Vec<String> {
    heard_at().into_iter().map(|l| l.1).collect()
}
pub fn heard_at() -> Vec<(log::Level, String)> {
    LOGGED.with(|l| l.borrow_mut().take()).unwrap_or_default()
}

/// What else the library has, which this sound card cannot do.
macro_rules! unsupported {
    ($($name:ident($($arg:ty),*);)*) => { $(
        #[unsafe(no_mangle)]
        extern "C" fn $name($(_: $arg),*) -> c_int { CUBEB_ERROR_NOT_SUPPORTED }
    )* };
}
unsupported! {
    cubeb_get_max_channel_count(*mut cubeb, *mut c_uint);
    cubeb_get_preferred_sample_rate(*mut cubeb, *mut c_uint);
    cubeb_get_supported_input_processing_params(*mut cubeb, *mut cubeb_input_processing_params);
    cubeb_stream_get_position(*mut cubeb_stream, *mut u64);
    cubeb_stream_get_input_latency(*mut cubeb_stream, *mut c_uint);
    cubeb_stream_set_volume(*mut cubeb_stream, f32);
    cubeb_stream_set_name(*mut cubeb_stream, *const c_char);
    cubeb_stream_get_current_device(*mut cubeb_stream, *mut *mut cubeb_device);
    cubeb_stream_device_destroy(*mut cubeb_stream, *mut cubeb_device);
    cubeb_stream_set_input_mute(*mut cubeb_stream, c_int);
    cubeb_stream_set_input_processing_params(*mut cubeb_stream, cubeb_input_processing_params);
}
