//! C42: calls play and record through the devices that were chosen, and audio reaches WebRTC only when it should.
//! C43: logs never show what devices are called.
//! C44: what is listed, what it is called, and what a choice means.
//! C45: what is asked of WebRTC's objects reaches them, and they live as long as they are used.
mod adm;
mod lists;
mod logs;
mod peers;
mod rtc;
mod sound;

use std::sync::Mutex;

use mclib::ensure;
use mcstd::mc;
use ringrtc::webrtc::peer_connection_factory::{AudioConfig, AudioDevice, AudioDeviceObserver, PeerConnectionFactory};

use sound::{Dev, IN, OUT};

thread_local! {
    static TOLD: std::cell::RefCell<Vec<(usize, Vec<Option<AudioDevice>>)>> = const { std::cell::RefCell::new(vec![]) };
}
#[derive(Debug)]
pub struct Ears;
impl AudioDeviceObserver for Ears {
    fn output_changed(&self, d: Vec<Option<AudioDevice>>) {
        TOLD.with(|t| t.borrow_mut().push((OUT, d)));
    }
    fn input_changed(&self, d: Vec<Option<AudioDevice>>) {
        TOLD.with(|t| t.borrow_mut().push((IN, d)));
    }
}
pub fn told() -> Vec<(usize, Vec<Option<AudioDevice>>)> {
    TOLD.with(|t| std::mem::take(&mut *t.borrow_mut()))
}

/// A client with its audio, and WebRTC below it.
pub struct Phone {
    pub app: PeerConnectionFactory,
    pub rtc: rtc::Rtc,
}
impl Phone {
    pub fn new(inputs: Vec<Dev>, outputs: Vec<Dev>) -> Result<Phone, String> {
        reset();
        sound::set_list(IN, inputs);
        sound::set_list(OUT, outputs);
        let app = PeerConnectionFactory::new(&AudioConfig::default(), false, "", Some(Box::new(Ears))).map_err(|e| format!("no factory: {e}"))?;
        let rtc = rtc::with(|s| s.made).ok_or("WebRTC was given no audio device module")?;
        mc::quiesce();
        told();
        Ok(Phone { app, rtc })
    }
    pub fn close(self) -> Result<(), String> {
        drop(self.app);
        released()
    }
    /// The devices as the app lists them.
    pub fn listed(&mut self, dir: usize) -> Result<Vec<AudioDevice>, String> {
        if dir == IN { self.app.get_audio_recording_devices() } else { self.app.get_audio_playout_devices() }.map_err(|e| e.to_string())
    }
    pub fn choose(&mut self, dir: usize, index: usize) -> Result<(), String> {
        let r = if dir == IN { self.app.set_audio_recording_device(index) } else { self.app.set_audio_playout_device(index) };
        mc::quiesce();
        r.map_err(|e| e.to_string())
    }
    pub fn choose_id(&mut self, dir: usize, id: &str) -> Result<(), String> {
        let r = if dir == IN { self.app.set_audio_recording_device_by_id(id) } else { self.app.set_audio_playout_device_by_id(id) };
        mc::quiesce();
        r.map_err(|e| e.to_string())
    }
    pub fn init(&self, dir: usize) -> i32 {
        let r = if dir == IN { self.rtc.init_recording() } else { self.rtc.init_playout() };
        mc::quiesce();
        r
    }
    pub fn start(&self, dir: usize) -> i32 {
        let r = if dir == IN { self.rtc.start_recording() } else { self.rtc.start_playout() };
        mc::quiesce();
        r
    }
    pub fn stop(&self, dir: usize) -> i32 {
        let r = if dir == IN { self.rtc.stop_recording() } else { self.rtc.stop_playout() };
        mc::quiesce();
        r
    }
}
pub fn reset() {
    sound::reset();
    rtc::reset();
    told();
}
/// Nothing is left, and nothing was used wrongly.
pub fn released() -> Result<(), String> {
    mc::quiesce();
    misused()?;
    rtc::settled()?;
    ensure!(mc::live_threads() == 1, "a thread of the audio code survives what it served");
    sound::settled()?;
    misused()
}
pub fn misused() -> Result<(), String> {
    let m = sound::with(|w| std::mem::take(&mut w.misuse));
    ensure!(m.is_empty(), "{}", m.join("; "));
    Ok(())
}

/// Runs a history.
pub fn run<R: Send>(body: impl Fn() -> Result<R, String> + Sync, cfg: &mc::Config) -> (Result<R, String>, Vec<String>) {
    let out: Mutex<Option<Result<R, String>>> = Mutex::new(None);
    let r = mc::run_once(cfg, vec![], &|| {
        let v = body();
        mc::set_quiet(true);
        *out.lock().unwrap() = Some(v);
    });
    if let Some(e) = r.engine_error {
        mclib::die(&format!("engine error: {e}"));
    }
    let res = match (r.error, out.into_inner().unwrap()) {
        (Some(e), _) => Err(e),
        (None, Some(v)) => v,
        (None, None) => Err("the execution ended early".into()),
    };
    (res, r.log)
}

fn main() {
    sound::install_log();
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C42" => adm::c42(),
        "C43" => logs::c43(),
        "C44" => lists::c44(),
        "C45" => peers::c45(),
        x => mclib::die(&format!("unknown property {x}")),
    }
}
