//! C38: what is signaled about media reaches WebRTC and comes from it unchanged.
use std::{
    cell::RefCell,
    ffi::{CStr, CString},
    os::raw::c_char,
};

use mclib::{Check, ensure, json, pick};
use mcstd::mc;
use ringrtc::{
    common::{CallConfig, DataMode, units::DataRate},
    protobuf::signaling::{ConnectionParametersV4, VideoCodec, VideoCodecType},
    webrtc::{
        ptr::{Borrowed, Owned, Unique},
        sdp_observer::{self, RffiConnectionParametersV4, RffiSessionDescription, SessionDescription, SrtpCryptoSuite, SrtpKey},
        sim::sdp_observer::{Event, listen},
    },
};

#[derive(Clone, Debug, PartialEq)]
struct From4 {
    offer: bool,
    legacy: bool,
    tcc: bool,
    encode: bool,
    decode: bool,
    local: bool,
    ufrag: String,
    pwd: String,
    codecs: [Vec<i32>; 3],
}
#[derive(Default)]
struct WebRtc {
    /// What the next function that makes something gives.
    gives: usize,
    from4: Vec<From4>,
    to4: Vec<(usize, bool, bool, bool)>,
    deleted: Vec<usize>,
    deleted4: Vec<usize>,
    srtp: Vec<(usize, i32, Vec<u8>, Vec<u8>)>,
    group: Vec<(bool, String, String, i32, Vec<u8>, Vec<u8>, u32, Vec<u32>)>,
    observers: Vec<(bool, usize, usize)>,
}
thread_local! {
    static RTC: RefCell<WebRtc> = RefCell::default();
}
fn rtc<T>(f: impl FnOnce(&mut WebRtc) -> T) -> T {
    RTC.with(|r| f(&mut r.borrow_mut()))
}
fn reset(gives: usize) {
    rtc(|r| *r = WebRtc { gives, ..Default::default() });
}
fn text(p: *const c_char) -> String {
    if p.is_null() { "(null)".into() } else { unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned() }
}
fn codecs<T>(p: Borrowed<T>, n: usize) -> Vec<i32> {
    assert_eq!(std::mem::size_of::<T>(), 4);
    (0..n).map(|k| unsafe { *(p.as_ptr() as *const i32).add(k) }).collect()
}
#[repr(C)]
struct Key {
    suite: i32,
    key: *const u8,
    key_len: usize,
    salt: *const u8,
    salt_len: usize,
}
fn answer(e: &Event) -> usize {
    rtc(|r| match e {
        Event::Observer { set, observer, callbacks } => {
            r.observers.push((*set, *observer, *callbacks));
            0
        }
        Event::ToSdp { .. } => 0,
        Event::Srtp { description, suite, key, salt } => {
            r.srtp.push((*description, *suite as i32, key.to_vec(), salt.to_vec()));
            r.gives
        }
        Event::ToV4 { description, legacy, vp9_encode, vp9_decode } => {
            r.to4.push((*description, *legacy, *vp9_encode, *vp9_decode));
            r.gives
        }
        Event::DeleteV4 { v4 } => {
            r.deleted4.push(*v4);
            0
        }
        Event::FromV4 { offer, v4, legacy, tcc_audio, vp9_encode, vp9_decode, is_local } => {
            r.from4.push(From4 {
                offer: *offer,
                legacy: *legacy,
                tcc: *tcc_audio,
                encode: *vp9_encode,
                decode: *vp9_decode,
                local: *is_local,
                ufrag: text(v4.ice_ufrag.as_ptr()),
                pwd: text(v4.ice_pwd.as_ptr()),
                codecs: [
                    codecs(v4.bidirectional_video_codecs, v4.bidirectional_video_codecs_size),
                    codecs(v4.encode_only_video_codecs, v4.encode_only_video_codecs_size),
                    codecs(v4.decode_only_video_codecs, v4.decode_only_video_codecs_size),
                ],
            });
            r.gives
        }
        Event::Group { remote, ufrag, pwd, key, demux_id, others } => {
            let k = unsafe { &*(*key as *const Key) };
            let of = |p: *const u8, n: usize| (0..n).map(|i| unsafe { *p.add(i) }).collect::<Vec<u8>>();
            r.group.push((*remote, text(*ufrag), text(*pwd), k.suite, of(k.key, k.key_len), of(k.salt, k.salt_len), *demux_id, others.to_vec()));
            r.gives
        }
        Event::Delete { description } => {
            r.deleted.push(*description);
            0
        }
    })
}

static NAMES: [&str; 3] = ["one", "two", "three"];
fn description(k: usize) -> usize {
    &NAMES[k] as *const &str as usize
}
fn unique(at: usize) -> Unique<RffiSessionDescription> {
    Unique::from(unsafe { Owned::from_ptr(at as *const RffiSessionDescription) })
}
fn deleted() -> Vec<usize> {
    rtc(|r| r.deleted.clone())
}

/// Lists of up to `n` of the given codec types.
fn lists(types: &[Option<i32>], n: usize) -> Vec<Vec<Option<i32>>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<Option<i32>>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|l| types.iter().map(move |t| l.iter().copied().chain([*t]).collect())).collect();
        all.extend(last.clone());
    }
    all
}
fn proto(l: &[Option<i32>]) -> Vec<VideoCodec> {
    l.iter().map(|t| VideoCodec { r#type: *t }).collect()
}

/// From what was signaled to WebRTC.
fn from_v4(lists: &[Vec<Option<i32>>], i: u64) -> Result<bool, String> {
    let n = lists.len() as u64;
    let (bits, i) = (i % 32, i / 32);
    let (both, enc, dec) = (&lists[(i % n) as usize], &lists[(i / n % n) as usize], &lists[(i / n / n) as usize]);
    let bit = |k: u32| bits >> k & 1 == 1;
    let config = CallConfig { enable_tcc_audio: bit(0), enable_vp9_encode: bit(1), enable_vp9_decode: bit(2), ..Default::default() };
    let strings = [None, Some(""), Some("uFrag"), Some("p\u{e4}ss"), Some("a\0b")];
    // four lists decide about the strings, which do not matter for them
    let (u, p) = (strings[(i % 5) as usize], strings[(i / 5 % 5) as usize]);
    let v4 = ConnectionParametersV4 {
        public_key: Some(vec![1, 2]),
        ice_ufrag: u.map(String::from),
        ice_pwd: p.map(String::from),
        receive_video_codecs: proto(both),
        max_bitrate_bps: Some(7),
        encode_only_video_codecs: proto(enc),
        decode_only_video_codecs: proto(dec),
    };
    let fails = i % 7 == 3;
    reset(if fails { 0 } else { description(0) });
    let r = if bit(3) { SessionDescription::offer_from_v4(&v4, &config, bit(4)) } else { SessionDescription::answer_from_v4(&v4, &config, bit(4)) };
    let known = |l: &[Option<i32>]| l.iter().flatten().copied().filter(|t| [8, 9].contains(t)).collect::<Vec<i32>>();
    let asymmetric = !enc.is_empty() && !dec.is_empty();
    let bad = [u, p].iter().any(|s| s.is_some_and(|s| s.contains('\0')));
    let got = rtc(|r| std::mem::take(&mut r.from4));
    if bad {
        ensure!(r.is_err() && got.is_empty(), "a description with a NUL in {u:?} or {p:?} was made");
        return Ok(false);
    }
    let v9 = config.enable_vp9_encode && config.enable_vp9_decode;
    let want = From4 {
        offer: bit(3),
        legacy: !asymmetric,
        tcc: bit(0),
        encode: if asymmetric { bit(1) } else { v9 },
        decode: if asymmetric { bit(2) } else { v9 },
        local: asymmetric && bit(4),
        ufrag: u.unwrap_or("").into(),
        pwd: p.unwrap_or("").into(),
        codecs: if asymmetric { [known(both), known(enc), known(dec)] } else { [known(both), vec![], vec![]] },
    };
    ensure!(got == vec![want.clone()], "{v4:?} became {got:?} instead of {want:?}");
    match r {
        Err(_) => ensure!(fails && deleted().is_empty(), "{v4:?} failed"),
        Ok(d) => {
            ensure!(!fails, "WebRTC made no description of {v4:?}, and nobody noticed");
            ensure!(d.supports_asymmetric == Some(asymmetric), "{v4:?} supports asymmetric codecs: {:?}", d.supports_asymmetric);
            if bit(0) {
                ensure!(deleted().is_empty(), "deleted too early");
                drop(d);
                ensure!(deleted() == vec![description(0)], "the description was deleted {} times", deleted().len());
            } else {
                let raw = d.take_rffi().into_owned();
                ensure!(raw.as_ptr() as usize == description(0) && deleted().is_empty(), "a description handed to WebRTC was deleted");
            }
        }
    }
    Ok(asymmetric)
}

/// From WebRTC to what is signaled.
fn to_v4(lists: &[Vec<Option<i32>>], i: u64) -> Result<bool, String> {
    let n = lists.len() as u64;
    let (bits, i) = (i % 12, i / 12);
    let l: [Vec<i32>; 3] = [i % n, i / n % n, i / n / n].map(|k| lists[k as usize].iter().flatten().copied().collect());
    let supports = [None, Some(false), Some(true)][(bits % 3) as usize];
    let (enc, dec) = (bits / 3 % 2 == 1, bits / 6 == 1);
    let config = CallConfig { enable_vp9_encode: enc, enable_vp9_decode: dec, ..Default::default() };
    let strings = [None, Some(&b"uFrag"[..]), Some(&b""[..]), Some(&b"bad \xff"[..])];
    let (u, p) = (strings[(i % 4) as usize], strings[(i / 4 % 4) as usize]);
    let keep: Vec<CString> = [u, p].iter().map(|s| CString::new(s.unwrap_or(b"")).unwrap()).collect();
    let at = |k: usize, s: Option<&[u8]>| if s.is_some() { Borrowed::from_ptr(keep[k].as_ptr()) } else { Borrowed::null() };
    let list = |l: &Vec<i32>| if l.is_empty() && i % 2 == 0 { Borrowed::null() } else { Borrowed::from_ptr(l.as_ptr() as *const _) };
    let rffi = RffiConnectionParametersV4 {
        ice_ufrag: at(0, u),
        ice_pwd: at(1, p),
        bidirectional_video_codecs: list(&l[0]),
        bidirectional_video_codecs_size: l[0].len(),
        encode_only_video_codecs: list(&l[1]),
        encode_only_video_codecs_size: l[1].len(),
        decode_only_video_codecs: list(&l[2]),
        decode_only_video_codecs_size: l[2].len(),
    };
    let at4 = &rffi as *const _ as usize;
    let fails = i % 7 == 3;
    reset(if fails { 0 } else { at4 });
    let d = SessionDescription::new(unique(description(1)), supports);
    let key = vec![i as u8; 32];
    let (mode, rate) = [(DataMode::Low, 300_000), (DataMode::Normal, 2_000_000), (DataMode::Custom { max_bitrate: DataRate::from_bps(12_345), max_group_call_receive_rate: DataRate::from_bps(1) }, 12_345)][(i % 3) as usize];
    let r = d.to_v4(key.clone(), &config, mode);
    let asked = rtc(|r| std::mem::take(&mut r.to4));
    let Some(asymmetric) = supports else {
        ensure!(r.is_err() && asked.is_empty(), "a description of a group call was signaled in a direct call");
        return Ok(false);
    };
    let flags = if asymmetric { (enc, dec) } else { (enc && dec, enc && dec) };
    ensure!(asked == vec![(description(1), !asymmetric, flags.0, flags.1)], "WebRTC was asked {asked:?} (asymmetric {asymmetric}, VP9 {enc} {dec})");
    let deleted4 = rtc(|r| r.deleted4.clone());
    if fails {
        ensure!(r.is_err() && deleted4.is_empty(), "WebRTC had no parameters, and nobody noticed");
    } else {
        ensure!(deleted4 == vec![at4], "the parameters were deleted {} times", deleted4.len());
        let s = |s: Option<&[u8]>| Some(s.map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default());
        let c = |l: &Vec<i32>| l.iter().map(|t| VideoCodec { r#type: Some(if *t == 9 { VideoCodecType::Vp9 } else { VideoCodecType::Vp8 } as i32) }).collect::<Vec<_>>();
        let want = ConnectionParametersV4 {
            public_key: Some(key),
            ice_ufrag: s(u),
            ice_pwd: s(p),
            receive_video_codecs: c(&l[0]),
            max_bitrate_bps: Some(rate),
            encode_only_video_codecs: c(&l[1]),
            decode_only_video_codecs: c(&l[2]),
        };
        let got = r.map_err(|e| e.to_string())?;
        ensure!(got == want, "signaled {got:?} instead of {want:?}");
    }
    drop(d);
    ensure!(deleted() == vec![description(1)], "the description was deleted {} times", deleted().len());
    Ok(!fails)
}

fn suites() -> [(SrtpCryptoSuite, i32, usize, usize); 3] {
    [(SrtpCryptoSuite::Aes128CmSha1, 1, 16, 14), (SrtpCryptoSuite::AeadAes128Gcm, 7, 16, 12), (SrtpCryptoSuite::AeadAes256Gcm, 8, 32, 12)]
}
fn group(i: u64) -> Result<bool, String> {
    let (suite, number, k, s) = suites()[(i % 3) as usize];
    ensure!((suite.key_size(), suite.salt_size()) == (k, s), "{suite:?} has keys of {} and salts of {} bytes", suite.key_size(), suite.salt_size());
    let key = SrtpKey { suite, key: (0..k).map(|b| (b * 3 + i as usize) as u8).collect(), salt: (0..s).map(|b| (b * 5 + i as usize) as u8).collect() };
    let remote = i / 3 % 2 == 1;
    let demux = [None, Some(0u32), Some(16), Some(u32::MAX)][(i / 6 % 4) as usize];
    let others: Vec<u32> = (0..i / 24 % 4).map(|o| 32 + 16 * o as u32).collect();
    let names = ["", "uFrag", "a\0b"];
    let (u, p) = (names[(i / 96 % 3) as usize], names[(i / 288 % 3) as usize]);
    let fails = i / 864 == 1;
    reset(if fails { 0 } else { description(2) });
    let r = if remote { SessionDescription::remote_for_group_call(u, p, &key, demux.unwrap_or(7), &others) } else { SessionDescription::local_for_group_call(u, p, &key, demux, &others) };
    let asked = rtc(|r| std::mem::take(&mut r.group));
    if u.contains('\0') || p.contains('\0') {
        ensure!(r.is_err() && asked.is_empty(), "a description with a NUL was made");
        return Ok(false);
    }
    let want = (remote, u.to_string(), p.to_string(), number, key.key.clone(), key.salt.clone(), demux.unwrap_or(if remote { 7 } else { 0 }), others);
    ensure!(asked == vec![want.clone()], "WebRTC was asked for {asked:?} instead of {want:?}");
    ensure!(r.is_err() == fails, "WebRTC made a description: {}, and the call says {}", !fails, r.is_ok());
    if let Ok(mut d) = r {
        ensure!(d.supports_asymmetric.is_none(), "a group call with asymmetric codecs");
        for ok in [1, 0] {
            rtc(|r| r.gives = ok);
            ensure!(d.disable_dtls_and_set_srtp_key(&key).is_ok() == (ok == 1), "setting the key was said to work, but it did {ok}");
        }
        let got = rtc(|r| std::mem::take(&mut r.srtp));
        ensure!(got == vec![(description(2), number, key.key.clone(), key.salt.clone()); 2], "the key became {got:?}");
        drop(d);
        ensure!(deleted() == vec![description(2)], "the description was deleted {} times", deleted().len());
    }
    Ok(true)
}

/// The lengths of what is signaled.
const SIZES: [usize; 22] = [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
const LENGTHS: [usize; 12] = [0, 1, 3, 4, 22, 255, 256, 257, 4096, 4097, 65_535, 65_537];
/// Strings of any length, and ones that a tidy mind would change.
fn string(k: usize) -> String {
    let odd = [" uFrag", "uFrag ", "\tpwd\r\n", " ", "+/=", "uFrag:pwd", "a=ice-ufrag:x", "UPPER lower", "\u{feff}x", "\u{1F600}"];
    match k.checked_sub(LENGTHS.len()) {
        None => (0..LENGTHS[k]).map(|i| (b'!' + ((i * 7 + k) % 90) as u8) as char).collect(),
        Some(o) => odd[o].into(),
    }
}
const STRINGS: usize = LENGTHS.len() + 10;

/// Lists, strings and keys of all sizes, both ways.
fn sizes(i: u64) -> Result<bool, String> {
    let (of, i) = ((i % 4) as usize, i as usize / 4);
    let (k, i) = (i % SIZES.len(), i / SIZES.len());
    let (u, p) = (string(i % STRINGS), string((i * 5 + k) % STRINGS));
    let one_way = i / STRINGS == 1;
    let lens = [SIZES[k], if one_way { SIZES[(k * 5 + 1) % SIZES.len()].max(1) } else { 0 }, if one_way { SIZES[(k * 7 + 2) % SIZES.len()].max(1) } else { 0 }];
    let [both, enc, dec] = [0, 1, 2].map(|l: usize| (0..lens[l]).map(|c| 8 + ((c * (l + 2) + c / 5) % 2) as i32).collect::<Vec<i32>>());
    match of {
        // in
        0 => {
            let codec = |l: &[i32]| proto(&l.iter().map(|t| Some(*t)).collect::<Vec<_>>());
            let v4 = ConnectionParametersV4 {
                public_key: Some(vec![3; lens[0]]),
                ice_ufrag: Some(u.clone()),
                ice_pwd: Some(p.clone()),
                receive_video_codecs: codec(&both),
                max_bitrate_bps: None,
                encode_only_video_codecs: codec(&enc),
                decode_only_video_codecs: codec(&dec),
            };
            reset(description(0));
            let config = CallConfig::default();
            let d = if k % 2 == 0 { SessionDescription::offer_from_v4(&v4, &config, true) } else { SessionDescription::answer_from_v4(&v4, &config, true) };
            ensure!(d.is_ok(), "{} codecs and strings of {} and {} bytes failed", lens[0], u.len(), p.len());
            let got = rtc(|r| std::mem::take(&mut r.from4));
            ensure!(got.len() == 1 && got[0].ufrag == u && got[0].pwd == p, "the strings {u:?} and {p:?} were changed");
            let want = if one_way { [both, enc, dec] } else { [both, vec![], vec![]] };
            ensure!(got[0].codecs == want, "{lens:?} codecs became {:?}", got[0].codecs);
        }
        // out
        1 => {
            let keep = [u.as_str(), &p].map(|s| CString::new(s).unwrap());
            let rffi = RffiConnectionParametersV4 {
                ice_ufrag: Borrowed::from_ptr(keep[0].as_ptr()),
                ice_pwd: Borrowed::from_ptr(keep[1].as_ptr()),
                bidirectional_video_codecs: Borrowed::from_ptr(both.as_ptr() as *const _),
                bidirectional_video_codecs_size: both.len(),
                encode_only_video_codecs: Borrowed::from_ptr(enc.as_ptr() as *const _),
                encode_only_video_codecs_size: enc.len(),
                decode_only_video_codecs: Borrowed::from_ptr(dec.as_ptr() as *const _),
                decode_only_video_codecs_size: dec.len(),
            };
            reset(&rffi as *const _ as usize);
            let key: Vec<u8> = (0..lens[0]).map(|b| b as u8).collect();
            let rates = [1u64, 30_000, 1 << 31, (1 << 32) + 5, u64::MAX / 2];
            let rate = rates[k % 5];
            let mode = DataMode::Custom { max_bitrate: DataRate::from_bps(rate), max_group_call_receive_rate: DataRate::from_bps(1) };
            let d = SessionDescription::new(unique(description(1)), Some(one_way));
            let got = d.to_v4(key.clone(), &CallConfig::default(), mode).map_err(|e| e.to_string())?;
            ensure!(got.ice_ufrag.as_ref() == Some(&u) && got.ice_pwd.as_ref() == Some(&p), "the strings {u:?} and {p:?} were changed");
            ensure!(got.public_key == Some(key), "a key of {} bytes became {:?}", lens[0], got.public_key);
            ensure!(got.max_bitrate_bps == Some(rate), "the rate {rate} became {:?}", got.max_bitrate_bps);
            let types = |l: &[VideoCodec]| l.iter().map(|c| c.r#type.unwrap_or(-1)).collect::<Vec<i32>>();
            let lists = [types(&got.receive_video_codecs), types(&got.encode_only_video_codecs), types(&got.decode_only_video_codecs)];
            ensure!(lists == [both, enc, dec], "{lens:?} codecs became {lists:?}");
        }
        // group calls, with that many others
        _ => {
            let (suite, number, n, s) = suites()[k % 3];
            let key = SrtpKey { suite, key: vec![k as u8; n], salt: vec![!k as u8; s] };
            let others: Vec<u32> = (0..lens[0] * (1 + 7 * (k % 2))).map(|o| (o as u32).wrapping_mul(0x9E37_79B0)).collect();
            let me = 0x8000_0010 + k as u32;
            let remote = of == 3;
            reset(description(2));
            let d = if remote { SessionDescription::remote_for_group_call(&u, &p, &key, me, &others) } else { SessionDescription::local_for_group_call(&u, &p, &key, Some(me), &others) };
            ensure!(d.is_ok(), "{} others and strings of {} and {} bytes failed", others.len(), u.len(), p.len());
            let asked = rtc(|r| std::mem::take(&mut r.group));
            let want = (remote, u, p, number, key.key.clone(), key.salt.clone(), me, others);
            ensure!(asked == vec![want.clone()], "WebRTC was asked for {asked:?} instead of {want:?}");
        }
    }
    Ok(true)
}

/// WebRTC answers an observer from its own thread while, before or after the result is asked for: once, or twice.
fn observed(set: bool) {
    reset(0);
    let supports = [None, Some(false), Some(true)][if set { 0 } else { mc::choose(3) }];
    // what WebRTC says: a description, or an error
    let says: Vec<Option<usize>> = match mc::choose(4) {
        0 => vec![Some(0)],
        1 => vec![None],
        2 => vec![Some(0), None],
        _ => vec![None, Some(1)],
    };
    let csd = (!set).then(|| sdp_observer::create_csd_observer(supports));
    let ssd = set.then(sdp_observer::create_ssd_observer);
    let (s, here, cb) = rtc(|r| r.observers[0]);
    assert_eq!(s, set);
    let said = says.clone();
    let rtc_thread = mcstd::thread::spawn(move || {
        let cb = unsafe { &*(cb as *const [usize; 2]) };
        for (k, s) in said.iter().enumerate() {
            let message = CString::new(format!("failure {k}")).unwrap();
            match (s, set) {
                (Some(_), true) => unsafe { std::mem::transmute::<usize, extern "C" fn(usize)>(cb[0])(here) },
                (Some(d), false) => unsafe { std::mem::transmute::<usize, extern "C" fn(usize, usize)>(cb[0])(here, description(*d)) },
                (None, _) => unsafe { std::mem::transmute::<usize, extern "C" fn(usize, *const c_char, i32)>(cb[1])(here, message.as_ptr(), 40 + k as i32) },
            }
        }
    });
    if mc::choose_bool() {
        mcstd::thread::yield_now();
    }
    let check_error = |e: String| {
        let k = says.iter().position(|s| s.is_none()).unwrap_or_else(|| panic!("an error out of nowhere: {e}"));
        assert!(e.contains(&format!("failure {k}")) && e.contains(&format!("{}", 40 + k)), "the error is {e} instead of failure {k} of type {}", 40 + k);
        mc::outcome("failure");
    };
    let mut taken = vec![];
    if let Some(c) = &csd {
        match c.get_result() {
            Ok(d) => {
                assert_eq!(d.supports_asymmetric, supports);
                let raw = d.take_rffi().into_owned();
                let d = says.iter().flatten().next().unwrap_or_else(|| panic!("a description out of nowhere"));
                assert_eq!(raw.as_ptr() as usize, description(*d), "another description");
                taken.push(description(*d));
                mc::outcome("success");
            }
            Err(e) => check_error(e.to_string()),
        }
    }
    if let Some(c) = &ssd {
        match c.get_result() {
            Ok(()) => {
                assert!(says.iter().any(|s| s.is_some()), "success out of nowhere");
                mc::outcome("success");
            }
            Err(e) => check_error(e.to_string()),
        }
    }
    rtc_thread.join().unwrap();
    // asked again, it says the last thing, but gives nothing twice
    let last = says.last().unwrap();
    if let Some(c) = &csd {
        match c.get_result() {
            Ok(d) => {
                let d = d.take_rffi().into_owned();
                assert!(last.is_some(), "success after failure");
                if !d.is_null() {
                    assert!(!taken.contains(&(d.as_ptr() as usize)), "the description was given twice");
                    taken.push(d.as_ptr() as usize);
                }
            }
            Err(e) => {
                assert!(last.is_none(), "{e}");
            }
        }
    }
    if let Some(c) = &ssd {
        assert_eq!(c.get_result().is_ok(), last.is_some(), "asked again");
    }
    drop((csd, ssd));
    if !set {
        // each description is either the application's or deleted
        let mut all: Vec<usize> = deleted().into_iter().chain(taken).filter(|d| *d != 0).collect();
        all.sort();
        let mut want: Vec<usize> = says.iter().flatten().map(|d| description(*d)).collect();
        want.sort();
        assert_eq!(all, want, "descriptions given to the application or deleted, and those made, for {says:?}");
    }
    mc::cover(if says.len() > 1 { "two_results" } else { "one_result" });
}

pub fn c38() {
    listen(answer);
    let mut c = Check::new("C38", "model_checking");
    c.rule("Every combination of three codec lists (of known, unknown and missing types), of the configuration's flags, of missing, empty, proper and improper strings, and of WebRTC's success or failure; every schedule within the deviation bound of WebRTC answering an observer once or twice around the question for the result.");
    c.assume("WebRTC's side is a stand-in that reads the C layout; one thread asks an observer for its result.");
    let all = lists(&[None, Some(8), Some(9), Some(0), Some(77)], 2);
    let n = all.len() as u64;
    c.enumerate("from_what_is_signaled", n * n * n * 32, |i| from_v4(&all, i));
    let known = lists(&[Some(8), Some(9)], 2);
    let n = known.len() as u64;
    c.enumerate("to_what_is_signaled", n * n * n * 12, |i| to_v4(&known, i));
    c.enumerate("group_calls_and_keys", 3 * 2 * 4 * 4 * 9 * 2, group);
    c.enumerate("sizes", (4 * SIZES.len() * STRINGS * 2) as u64, sizes);
    let cfg = mc::Config { bound: pick(4, 6), max_seconds: pick(100, 400), ..Default::default() };
    c.schedules("create_observer", &cfg, &|| observed(false));
    c.schedules("set_observer", &cfg, &|| observed(true));
    c.sample(json!({"harnesses": 6}));
    c.finish();
}
