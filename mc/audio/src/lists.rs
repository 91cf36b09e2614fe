//! What a list of devices means: which are offered, under what names, and which one a choice stands for.
use mclib::{Check, ensure, json, pick};
use mcstd::mc;
use ringrtc::webrtc::peer_connection_factory::AudioDevice;

use crate::{
    Phone,
    sound::{self, Dev, IN, OUT},
    told,
};

const VOICE: u32 = 2;

/// The devices that are offered, the default one first (`None`: there is no default), with their ids.
pub fn offered(dir: usize, l: &[Dev]) -> Vec<Option<(Dev, AudioDevice)>> {
    let usable: Vec<&Dev> = l.iter().filter(|d| d.name.is_some() && d.enabled).collect();
    let default = usable.iter().find(|d| d.pref & VOICE != 0).copied();
    // what a computer plays can be recorded: not offered, unless it is the default
    let monitor = |d: &Dev| dir == IN && d.kind == 1 && d.id.as_ref().is_some_and(|i| i.ends_with(".monitor"));
    let plain: Vec<&Dev> = usable.into_iter().filter(|d| !monitor(d)).collect();
    if plain.is_empty() && default.is_none() {
        return vec![];
    }
    std::iter::once(default)
        .chain(plain.into_iter().map(Some))
        .enumerate()
        .map(|(i, d)| {
            d.map(|d| {
                let n = d.name.clone().unwrap();
                let shown = if i == 0 { format!("default ({n})") } else { n.clone() };
                (d.clone(), AudioDevice { name: shown, unique_id: d.id.clone().unwrap_or(format!("{n}-{i}")), i18n_key: String::new() })
            })
        })
        .collect()
}

/// One device of a list, by number.
fn variant(dir: usize, k: usize, v: usize) -> Dev {
    let name = ["Alpha", "Beta", "Gamma"][k];
    let (v, enabled) = (v / 2, v % 2 == 0);
    let (v, pref) = (v / 4, [0, VOICE, 1, 0xf][v % 4]);
    let (v, id) = (v / 4, [Some(format!("{name}.id")), None, Some(format!("{name}.monitor")), Some(format!("{name}.monitor.2"))][v % 4].clone());
    let name = if v == 0 { Some(name.to_string()) } else { None };
    Dev { devid: 16 + k, id, name, kind: if dir == IN { 1 } else { 2 }, enabled, pref }
}
const VARIANTS: usize = 64;

fn name_of(p: &Phone, dir: usize, i: u16) -> Option<(Vec<u8>, Vec<u8>)> {
    let (mut n, mut g) = ([0xee_u8; 136], [0xee_u8; 136]);
    let f = |n: *mut u8, g: *mut u8| if dir == IN { p.rtc.recording_device_name(i, n, g) } else { p.rtc.playout_device_name(i, n, g) };
    let r = f(n.as_mut_ptr(), g.as_mut_ptr());
    assert!(n[128..] == [0xee; 8] && g[128..] == [0xee; 8], "a name was written beyond its space");
    let text = |b: &[u8]| b[..b.iter().position(|c| *c == 0).expect("a name without an end")].to_vec();
    (r == 0).then(|| (text(&n), text(&g)))
}

fn check(dir: usize, l: Vec<Dev>) -> Result<bool, String> {
    let (i, o) = if dir == IN { (l.clone(), vec![]) } else { (vec![], l.clone()) };
    let mut p = Phone::new(i, o)?;
    let want = offered(dir, &l);
    let r = (|| {
        let got = p.listed(dir);
        match want.iter().map(|w| w.as_ref().map(|w| w.1.clone())).collect::<Option<Vec<_>>>() {
            Some(w) => ensure!(got == Ok(w.clone()), "{l:?} are listed as {got:?}, not {w:?}"),
            None => ensure!(got.is_err(), "{l:?} without a default are listed as {got:?}"),
        }
        let n = if dir == IN { p.rtc.recording_devices() } else { p.rtc.playout_devices() };
        ensure!(n as usize == want.len(), "{l:?} count as {n}");
        for k in 0..want.len() + 2 {
            let got = name_of(&p, dir, k as u16);
            let w = want.get(k).cloned().flatten().map(|w| (w.1.name.into_bytes(), w.1.unique_id.into_bytes()));
            ensure!(got == w, "device {k} of {l:?} is called {got:?}, not {w:?}");
        }
        // by number, and by id
        for k in 0..want.len() + 2 {
            let Some(w) = want.get(k) else {
                ensure!(p.choose(dir, k).is_ok() == want.is_empty(), "device {k} of {l:?} can be chosen");
                continue;
            };
            let Some((d, a)) = w else { continue };
            for by_id in [false, true] {
                // from another device to this one
                if let Some(other) = (0..want.len()).find(|o| want[*o].as_ref().is_some_and(|w| w.0.devid != d.devid)) {
                    ensure!(p.choose(dir, other).is_ok(), "device {other} of {l:?} cannot be chosen");
                }
                let r = if by_id { p.choose_id(dir, &a.unique_id) } else { p.choose(dir, k) };
                ensure!(r.is_ok(), "device {k} of {l:?} cannot be chosen: {r:?}");
                p.init(dir);
                let open = sound::open(dir);
                // the first of those with this id
                let d = if by_id { &want.iter().flatten().find(|w| w.1.unique_id == a.unique_id).unwrap().0 } else { d };
                ensure!(
                    open.len() == 1 && open[0].1.device == d.devid,
                    "{l:?}: device {k}{} stands for device {}, but {:?} was opened", if by_id { " by its id" } else { "" }, d.devid, open.iter().map(|s| s.1.device).collect::<Vec<_>>()
                );
                p.stop(dir);
            }
        }
        for id in ["", "Alpha", "Delta.id"] {
            ensure!(p.choose_id(dir, id).is_ok() == want.is_empty(), "{l:?}: a device {id:?} that is not there can be chosen");
        }
        Ok(want.len() > 1)
    })();
    let c = p.close();
    let r = r?;
    c?;
    Ok(r)
}

/// From one list to another.
fn change(dir: usize, from: Vec<Dev>, to: Vec<Dev>) -> Result<bool, String> {
    let (i, o) = if dir == IN { (from.clone(), vec![]) } else { (vec![], from.clone()) };
    let mut p = Phone::new(i, o)?;
    let r = (|| {
        sound::set_list(dir, to.clone());
        sound::announce(dir);
        mc::quiesce();
        let t = told();
        // what is known of a device without a name is not kept
        let known = |l: &[Dev]| l.iter().filter(|d| d.name.is_some()).cloned().collect::<Vec<_>>();
        let want: Vec<_> = if known(&from) == known(&to) { vec![] } else { vec![(dir, offered(dir, &to).into_iter().map(|w| w.map(|w| w.1)).collect::<Vec<_>>())] };
        ensure!(t == want, "from {from:?} to {to:?}: the observer was told {t:?}, not {want:?}");
        let w = offered(dir, &to).into_iter().map(|w| w.map(|w| w.1)).collect::<Option<Vec<_>>>();
        let got = p.listed(dir).ok();
        ensure!(got == w, "from {from:?} to {to:?}: {got:?} are listed, not {w:?}");
        // nothing changed, and nothing is told
        sound::announce(dir);
        sound::announce(1 - dir);
        mc::quiesce();
        let t = told();
        ensure!(t.is_empty(), "the observer was told of no change: {t:?}");
        Ok(!want.is_empty())
    })();
    let c = p.close();
    let r = r?;
    c?;
    Ok(r)
}

fn long_names(i: u64) -> Result<bool, String> {
    // bytes before, then characters of one width, which end anywhere around the limit
    let (i, width) = (i / 4, [1, 2, 3, 4][(i % 4) as usize]);
    let (lead, chars) = ((i % 5) as usize, (i / 5) as usize);
    let c = ["x", "é", "語", "🎤"][width - 1];
    let name = format!("{}{}", "a".repeat(lead), c.repeat(chars));
    if name.is_empty() || name.len() > 300 {
        return Ok(false);
    }
    let d = Dev { devid: 16, id: Some(name.clone()), name: Some(name.clone()), kind: 1, enabled: true, pref: VOICE };
    let p = Phone::new(vec![d.clone()], vec![d])?;
    let r = (|| {
        for dir in [IN, OUT] {
            for k in 0..2 {
                let got = name_of(&p, dir, k);
                let cut = |s: &str| {
                    let mut n = s.len().min(127);
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.as_bytes()[..n].to_vec()
                };
                let shown = if k == 0 { format!("default ({name})") } else { name.clone() };
                let w = Some((cut(&shown), cut(&name)));
                ensure!(got == w, "WebRTC is told that device {k} is called {:?}, not {:?}", got.map(|g| String::from_utf8(g.0)), w.map(|g| String::from_utf8(g.0)));
            }
        }
        Ok(name.len() > 100)
    })();
    let c = p.close();
    let r = r?;
    c?;
    Ok(r)
}

pub fn c44() {
    let mut c = Check::new("C44", "model_checking");
    c.rule("Every list of up to two devices of every kind and of three of those that differ in what counts; every change from one list of up to two to another; every choice in them by number and by id; every length of names of characters of one to four bytes around the space for them.");
    c.assume("The C library cubeb and WebRTC's C++ are stand-ins in the harness; the rules are those of Linux.");
    let cfg = mc::Config { bound: 0, ..Default::default() };
    let v = VARIANTS as u64;
    // up to two devices of every kind, and three of those that differ in what counts
    c.enumerate("lists_of_two", 2 * (1 + v + v * v), |i| {
        let (dir, i) = ((i % 2) as usize, i / 2);
        let l = match i {
            0 => vec![],
            i if i <= v => vec![variant(dir, 0, (i - 1) as usize)],
            i => vec![variant(dir, 0, ((i - 1 - v) / v) as usize), variant(dir, 1, ((i - 1 - v) % v) as usize)],
        };
        crate::run(|| check(dir, l.clone()), &cfg).0
    });
    let few: Vec<usize> = pick((0..33).collect(), (0..VARIANTS).collect());
    let m = few.len() as u64;
    c.enumerate("lists_of_three", 2 * m * m * m, |i| {
        let (dir, i) = ((i % 2) as usize, i / 2);
        let l: Vec<Dev> = [i % m, i / m % m, i / m / m].iter().enumerate().map(|(k, j)| variant(dir, k, few[*j as usize])).collect();
        crate::run(|| check(dir, l.clone()), &cfg).0
    });
    // changes between lists of up to two
    let states: Vec<usize> = pick(vec![0, 1, 2, 3, 8, 10, 16, 24, 32], (0..33).collect());
    let m = states.len() as u64;
    let n = 1 + m + m * m;
    let of = |dir: usize, i: u64| -> Vec<Dev> {
        match i {
            0 => vec![],
            i if i <= m => vec![variant(dir, 0, states[(i - 1) as usize])],
            i => vec![variant(dir, 0, states[((i - 1 - m) / m) as usize]), variant(dir, 1, states[((i - 1 - m) % m) as usize])],
        }
    };
    c.enumerate("changes", 2 * n * n, |i| {
        let (dir, i) = ((i % 2) as usize, i / 2);
        crate::run(|| change(dir, of(dir, i / n), of(dir, i % n)), &cfg).0
    });
    c.enumerate("long_names", 4 * 5 * 140, |i| crate::run(|| long_names(i), &cfg).0);
    c.sample(json!({"kinds": VARIANTS}));
    c.finish();
}
