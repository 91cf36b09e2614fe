//! C43: logs never show what devices are called.
use mclib::{Check, ensure, json, pick};
use mcstd::mc;

use crate::{
    Phone, misused,
    sound::{self, Dev, IN, OUT},
    told,
};

/// What may be shown of a name: four characters, or one where they are not of ASCII.
fn redacted(s: &str) -> String {
    let keep = if s.is_ascii() { 4 } else { 1 };
    let start: String = s.chars().take(keep).collect();
    if start == s { start } else { start + "..." }
}
/// Whether a text shows more of a name than it may.
fn shows(text: &str, name: &str) -> bool {
    let keep = if name.is_ascii() { 4 } else { 1 };
    let c: Vec<char> = name.chars().collect();
    (keep..c.len()).filter(|i| !". ".contains([c[i - 1], c[*i]])).any(|i| text.contains(&c[i - 1..=i].iter().collect::<String>()))
}

/// Lines of the library that tell names, around which they stand.
const FORMS: [&[&str]; 7] = [
    &["Found matching device for ", ": ", ""],
    &["collection: Audio device default changed, id = ", "."],
    &["collection: Audio device state changed, id = ", ", state = 1."],
    &["endpoint: Audio device default changed flow=0 role=1 new_device_id=", "."],
    &["Device 12 (", ") has 2 INPUT-channels"],
    &["Device 3 (", ") has 16 OUTPUT-channels"],
    &["Input device 55: uid=\"", "\", model_uid=\"", "\", transport_type=1651274862, source=None, source_name=\"", "\", name=\"", "\", manufacturer=\"Acme\""],
];
fn line(form: &[&str], values: &[&str], f: impl Fn(&str) -> String) -> String {
    let mut out = form[0].to_string();
    for (v, p) in values.iter().zip(&form[1..]) {
        out.push_str(&f(v));
        out.push_str(p);
    }
    out
}
fn logged(line: &[u8]) -> Vec<String> {
    sound::listen();
    sound::library_logs(line);
    sound::heard()
}

const VALUES: [&str; 22] = [
    "QWZXKJVY", "你好世界", "", "Q", "QWZX", "QWZXKJ", "KJVYQWZX", "Émile's phone", "zürich", "Device", "id", "name", "Jim's AirPods (2)", "QWZX QWZX", "$1 $0 ${name}", "a.b.c.d.", "uid", "...",
    "Q...", "你", "matching device", "12",
];

/// Every line that tells names, with every combination of them: the names are redacted, the rest is left.
fn lines(deep: usize) {
    let p = crate::adm::phone();
    for form in FORMS {
        let n = form.len() - 1;
        let of = if n > 2 { deep } else { VALUES.len() };
        for k in 0..of.pow(n as u32) {
            let values: Vec<&str> = (0..n).map(|i| VALUES[k / of.pow(i as u32) % of]).collect();
            let said = line(form, &values, |v| v.to_string());
            let want = line(form, &values, redacted);
            for (before, after) in [("cubeb_wasapi.cpp:4711: ", "\n"), ("/src/mod.rs:1:", "")] {
                let got = logged(format!("{before}{said}{after}").as_bytes());
                assert_eq!(got, [format!("cubeb: {before}{want}")], "the library logged {said:?}");
            }
            mc::cover(if said == want { "nothing_to_redact" } else { "redacted" });
        }
    }
    // and what tells none
    for said in ["x.cpp:1: opened", "x.cpp:22:Initialized with 2 devices", "x.cpp:3: (a) has no uid"] {
        assert_eq!(logged(said.as_bytes()), [format!("cubeb: {said}")]);
        mc::cover("left");
    }
    for said in ["x.cpp:1: DeviceID: \"QWZXKJVY\" (PREFERRED)\n\tName:\t\"QWZXKJVY\"\n", "QWZXKJVY"] {
        assert_eq!(logged(said.as_bytes()), Vec::<String>::new());
        mc::cover("suppressed");
    }
    p.close().unwrap();
}

/// The library cuts lines off at 255 bytes, anywhere.
fn cut() {
    let p = crate::adm::phone();
    for form in FORMS {
        for v in ["QWZXKJVY", "你好世界", "QWZX.KJVY.QJ", "{0.0.1.00000000}.{QJKVXZYW}", "QWZX\nKJVY"] {
            let values = vec![v; form.len() - 1];
            let said = line(form, &values, |v| v.to_string());
            for k in 1..=said.len() {
                let before = ": ";
                let pad = "x".repeat(255 - k - before.len() - "/x.cpp:7".len());
                let mut l = format!("{pad}/x.cpp:7{before}").into_bytes();
                l.extend(&said.as_bytes()[..k]);
                assert_eq!(l.len(), 255);
                for got in logged(&l) {
                    let got = got.replace(&pad, "");
                    assert!(!shows(&got, v), "a line that was cut off was logged as {got:?} ({:?})", String::from_utf8_lossy(&l[pad.len()..]));
                    mc::cover(if got.contains("...") { "redacted" } else { "shown" });
                }
            }
        }
    }
    p.close().unwrap();
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Choose(usize, usize),
    ChooseId(usize, usize),
    List(usize, usize),
    Init(usize),
    Start(usize),
    Stop(usize),
    Voice,
    Warm,
    Fail(usize),
    Close,
}
const NAMES: [&str; 4] = ["QWZXKJVY", "你好世界", "JKXQVZWYJ", "ωψχφ"];
fn device(dir: usize, i: usize) -> Dev {
    let kind = if dir == IN { 1 } else { 2 };
    let mut d = Dev::new(16 + i, NAMES[(i + 1) % 4], NAMES[i], kind, if i % 2 == 0 { 2 } else { 0 });
    if i == 3 {
        d.id = None;
    }
    d
}
fn list(dir: usize, k: usize) -> Vec<Dev> {
    match k {
        0 => vec![],
        1 => vec![device(dir, 0), device(dir, 1)],
        2 => vec![device(dir, 2), device(dir, 3)],
        _ => vec![device(dir, 3)],
    }
}
fn acts() -> Vec<Act> {
    let mut v = vec![Act::Voice, Act::Warm, Act::Close];
    for d in [IN, OUT] {
        v.extend((0..4).map(|i| Act::Choose(d, i)));
        v.extend((0..6).map(|i| Act::ChooseId(d, i)));
        v.extend((0..4).map(|k| Act::List(d, k)));
        v.extend([Act::Init(d), Act::Start(d), Act::Stop(d), Act::Fail(d)]);
    }
    v
}
/// What is done to the audio, and everything that is logged meanwhile.
fn histories(c: &mut Check, depth: usize) {
    let acts = acts();
    let mut l = mclib::bfs::Limits::depth(depth);
    l.max_seconds = pick(150., 1200.);
    let cfg = mc::Config { bound: 0, max_steps: 400_000, ..Default::default() };
    c.paths("histories", l, &|choices| {
        crate::run(
            || {
                sound::listen();
                let mut p = Some(Phone::new(list(IN, 1), list(OUT, 1))?);
                let mut started = [false; 2];
                let mut reached = vec![];
                let mut lines = 0;
                let mut said = vec![];
                for &i in choices {
                    let a = acts[i as usize];
                    mc::log(format!("{a:?}"));
                    if let Act::Close = a {
                        if let Some(p) = p.take() {
                            p.close()?;
                        }
                        break;
                    }
                    let p = p.as_mut().unwrap();
                    match a {
                        Act::Choose(d, i) => said.extend(p.choose(d, i).err()),
                        Act::ChooseId(d, i) => {
                            let id = match i {
                                4 => "ωψχφ-0".to_string(),
                                5 => "JQKV VYXW".to_string(),
                                i => NAMES[i].to_string(),
                            };
                            let r = p.choose_id(d, &id);
                            if r.is_err() {
                                reached.push("unknown_id");
                            }
                            said.extend(r.err());
                        }
                        Act::List(d, k) => {
                            // the library may be chosen from while ringrtc does not know of the change yet
                            sound::set_list(d, list(d, k));
                            sound::announce(d);
                            let r = p.app.set_audio_recording_device_by_id(NAMES[1]);
                            said.extend(r.err().map(|e| e.to_string()));
                            mc::quiesce();
                            told();
                        }
                        Act::Init(d) if !started[d] => drop(p.init(d)),
                        Act::Start(d) if !started[d] => {
                            p.init(d);
                            p.start(d);
                            started[d] = true;
                        }
                        Act::Stop(d) => {
                            p.stop(d);
                            started[d] = false;
                        }
                        Act::Voice => drop(p.app.set_input_voice_processing_enabled(true)),
                        Act::Warm => drop(p.app.set_audio_warmup(true)),
                        Act::Fail(d) => sound::with(|w| {
                            w.fail.open[d] = true;
                            w.fail.enumerate = true;
                        }),
                        _ => {}
                    }
                    mc::quiesce();
                    for d in [IN, OUT] {
                        if let Some(i) = sound::running(d) {
                            sound::pump(i, 480, (d == IN).then_some(&[0; 480][..]));
                        }
                        said.extend(p.listed(d).err());
                    }
                }
                let closed = p.is_none();
                if let Some(p) = p {
                    p.close()?;
                }
                misused()?;
                said.extend(sound::heard());
                for l in &said {
                    lines += 1;
                    for n in NAMES.into_iter().chain(["JQKV VYXW"]) {
                        ensure!(!shows(l, n), "{l:?} shows the name or id {n:?}");
                    }
                    if l.contains("QWZX...") || l.contains("你...") {
                        reached.push("redacted");
                    }
                }
                if lines == 0 {
                    reached.push("silent");
                }
                reached.sort();
                reached.dedup();
                Ok(mclib::paths::Step { key: String::new(), arity: if closed { 0 } else { acts.len() }, reached })
            },
            &cfg,
        )
    });
}

pub fn c43() {
    let mut c = Check::new("C43", "model_checking");
    c.rule("Every line of the library that tells names, with every combination of the stated names in it, and cut off after every byte; every sequence up to a depth of choosing devices by number and id, known and unknown, devices coming and going, failures, starting and stopping, and everything that is logged and every error that is returned meanwhile.");
    c.assume("The forms of the library's lines are those that ringrtc's own patterns describe; a name that contains the separators of such a line is ambiguous in it. Builds with debug assertions show names, by design.");
    let one = mc::Config { bound: 0, workers: 1, max_seconds: pick(300, 900), max_steps: 500_000, ..Default::default() };
    c.schedules("lines", &one, &|| lines(pick(8, 14)));
    c.schedules("cut", &one, &cut);
    histories(&mut c, pick(3, 4));
    c.sample(json!({"forms": FORMS.len(), "values": VALUES.len()}));
    c.finish();
}
