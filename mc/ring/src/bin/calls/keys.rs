//! C40: both ends of a direct call use the same keys, and nobody else does.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    ffi::{CStr, CString},
    time::Duration,
};

use hkdf::Hkdf;
use mclib::{Check, json, pick};
use mcstd::mc;
use ringrtc::{
    common::{CallConfig, CallId, CallMediaType},
    core::signaling,
    protobuf::signaling::{ConnectionParametersV4, VideoCodec},
    webrtc::{
        ptr::Borrowed,
        sdp_observer::RffiConnectionParametersV4,
        sim::sdp_observer::{Event, listen},
    },
};
use sha2::Sha256;
use x25519_dalek::{PublicKey, StaticSecret};

use crate::world::*;

type Key = (i32, Vec<u8>, Vec<u8>);
/// A description as WebRTC has it.
#[derive(Clone, Debug, Default)]
struct Desc {
    /// made by WebRTC itself, or an offer or an answer made from what was signaled
    offer: Option<bool>,
    ufrag: String,
    pwd: String,
    codecs: [Vec<i32>; 3],
    legacy: bool,
    keys: Vec<Key>,
}
#[derive(Default)]
struct WebRtc {
    descs: Vec<Desc>,
    made: usize,
    keep: Vec<(Box<RffiConnectionParametersV4>, Vec<CString>, [Vec<i32>; 3])>,
}
thread_local! {
    static RTC: RefCell<WebRtc> = RefCell::default();
}
fn rtc<T>(f: impl FnOnce(&mut WebRtc) -> T) -> T {
    RTC.with(|r| f(&mut r.borrow_mut()))
}
impl WebRtc {
    fn add(&mut self, d: Desc) -> usize {
        self.descs.push(d);
        self.descs.len() * 16
    }
    fn at(&mut self, description: usize) -> &mut Desc {
        &mut self.descs[description / 16 - 1]
    }
}
fn codecs<T>(p: Borrowed<T>, n: usize) -> Vec<i32> {
    (0..n).map(|k| unsafe { *(p.as_ptr() as *const i32).add(k) }).collect()
}
fn list<T>(l: &[i32]) -> Borrowed<T> {
    Borrowed::from_ptr(l.as_ptr() as *const T)
}
fn webrtc(e: &Event) -> usize {
    rtc(|r| match e {
        Event::Observer { set: true, .. } => 1,
        Event::Observer { .. } => {
            r.made += 1;
            let n = r.made;
            r.add(Desc { ufrag: format!("ufrag{n}"), pwd: format!("pwd{n}"), ..Default::default() })
        }
        Event::Srtp { description, suite, key, salt } => {
            r.at(*description).keys.push((*suite as i32, key.to_vec(), salt.to_vec()));
            1
        }
        Event::ToV4 { description, legacy, vp9_encode, vp9_decode } => {
            let d = r.at(*description).clone();
            let with = |vp9: bool| if vp9 { vec![9, 8] } else { vec![8] };
            let lists = [with(*legacy && *vp9_encode), if *legacy { vec![] } else { with(*vp9_encode) }, if *legacy { vec![] } else { with(*vp9_decode) }];
            let text = [d.ufrag, d.pwd].map(|s| CString::new(s).unwrap()).to_vec();
            let v4 = Box::new(RffiConnectionParametersV4 {
                ice_ufrag: Borrowed::from_ptr(text[0].as_ptr()),
                ice_pwd: Borrowed::from_ptr(text[1].as_ptr()),
                bidirectional_video_codecs: list(&lists[0]),
                bidirectional_video_codecs_size: lists[0].len(),
                encode_only_video_codecs: list(&lists[1]),
                encode_only_video_codecs_size: lists[1].len(),
                decode_only_video_codecs: list(&lists[2]),
                decode_only_video_codecs_size: lists[2].len(),
            });
            let at = &*v4 as *const _ as usize;
            r.keep.push((v4, text, lists));
            at
        }
        Event::FromV4 { offer, v4, legacy, .. } => {
            let text = |p: Borrowed<std::os::raw::c_char>| unsafe { CStr::from_ptr(p.as_ptr()) }.to_string_lossy().into_owned();
            r.add(Desc {
                offer: Some(*offer),
                ufrag: text(Borrowed::from_ptr(v4.ice_ufrag.as_ptr())),
                pwd: text(Borrowed::from_ptr(v4.ice_pwd.as_ptr())),
                codecs: [
                    codecs(v4.bidirectional_video_codecs, v4.bidirectional_video_codecs_size),
                    codecs(v4.encode_only_video_codecs, v4.encode_only_video_codecs_size),
                    codecs(v4.decode_only_video_codecs, v4.decode_only_video_codecs_size),
                ],
                legacy: *legacy,
                keys: vec![],
            })
        }
        _ => 0,
    })
}

/// The keys as the protocol has them, from the harness's own end: for the offer's and the answer's side.
fn protocol(secret: &StaticSecret, other: &[u8], caller: &[u8], callee: &[u8]) -> (Key, Key) {
    let shared = secret.diffie_hellman(&PublicKey::from(<[u8; 32]>::try_from(other).unwrap()));
    let info = [&b"Signal_Calling_20200807_SignallingDH_SRTPKey_KDF"[..], caller, callee].concat();
    let mut out = [0u8; 88];
    Hkdf::<Sha256>::new(Some(&[0; 32]), shared.as_bytes()).expand(&info, &mut out).unwrap();
    ((8, out[..32].to_vec(), out[32..44].to_vec()), (8, out[44..76].to_vec(), out[76..].to_vec()))
}

/// The descriptions of a connection: local and remote, each set once.
fn both(c: &Client, id: Id, dev: Dev) -> Option<(Desc, Desc)> {
    let set = c.w.pc(id, dev)?.told().descriptions;
    if set.is_empty() {
        return None;
    }
    let of = |remote: bool| {
        let v: Vec<usize> = set.iter().filter(|d| d.0 == remote).map(|d| d.1).collect();
        assert_eq!(v.len(), 1, "descriptions (remote: {remote}) of call {id} with {dev}: {set:?}");
        rtc(|r| r.at(v[0]).clone())
    };
    Some((of(false), of(true)))
}
/// The final key of a description, of the right kind.
fn key(d: &Desc, what: &str) -> Key {
    let k = d.keys.last().unwrap_or_else(|| panic!("{what}: no key was set")).clone();
    assert_eq!((k.0, k.1.len(), k.2.len()), (8, 32, 12), "{what}: suite and sizes of the key");
    assert!(d.keys.iter().all(|x| *x == k), "{what}: several keys {:?}", d.keys);
    k
}
fn config(bits: usize) -> CallConfig {
    CallConfig { enable_vp9_encode: bits & 1 == 1, enable_vp9_decode: bits & 2 == 2, ..Default::default() }
}

struct End {
    c: Client,
    identity: Vec<u8>,
}
fn identity(n: u8) -> Vec<u8> {
    let mut v = vec![n; 33];
    v[0] = 5;
    v
}
fn call(e: &mut End, id: Id, vp9: usize) -> ConnectionParametersV4 {
    e.c.call(2, id, 1);
    mc::quiesce();
    e.c.cm.proceed(CallId::new(id), Ctx(1), config(vp9), None).unwrap();
    mc::quiesce();
    let offer = e.c.w.offers.lock().unwrap().get(&id).cloned().unwrap_or_else(|| panic!("call {id} offers nothing"));
    e.c.cm.message_sent(CallId::new(id)).unwrap();
    mc::quiesce();
    offer.to_v4().unwrap()
}
#[allow(clippy::too_many_arguments)]
fn receive(e: &mut End, id: Id, dev: Dev, v4: &ConnectionParametersV4, caller: &[u8], vp9: usize) -> Option<ConnectionParametersV4> {
    let offer = signaling::Offer::from_v4(CallMediaType::Audio, v4.clone()).unwrap();
    let me = e.identity.clone();
    e.c.cm.received_offer(Peer(1), CallId::new(id), signaling::ReceivedOffer { offer, age: Duration::ZERO, sender_device_id: 1, receiver_device_id: dev, sender_identity_key: caller.to_vec(), receiver_identity_key: me }).unwrap();
    mc::quiesce();
    let _ = e.c.cm.proceed(CallId::new(id), Ctx(1), config(vp9), None);
    mc::quiesce();
    let a = e.c.w.answers.lock().unwrap().get(&(id, 1)).cloned()?;
    e.c.cm.message_sent(CallId::new(id)).unwrap();
    mc::quiesce();
    a.to_v4()
}
fn answered(e: &mut End, id: Id, dev: Dev, v4: &ConnectionParametersV4, callee: &[u8]) {
    let answer = signaling::Answer::from_v4(v4.clone()).unwrap();
    let me = e.identity.clone();
    e.c.cm.received_answer(Peer(2), CallId::new(id), signaling::ReceivedAnswer { answer, sender_device_id: dev, sender_identity_key: callee.to_vec(), receiver_identity_key: me }).unwrap();
    mc::quiesce();
}
fn ended(e: &End, id: Id) -> Option<String> {
    e.c.w.log.lock().unwrap().iter().find_map(|e| match e {
        Ev::Ended { id: i, reason, .. } if *i == id => Some(reason.clone()),
        _ => None,
    })
}
fn finish(ends: Vec<End>) {
    for mut e in ends {
        let _ = e.c.cm.hangup();
        mc::quiesce();
        e.c.close();
    }
    rtc(|r| *r = WebRtc::default());
}
fn new(identity_of: u8) -> End {
    let c = Client::new();
    mc::quiesce();
    End { c, identity: identity(identity_of) }
}
fn legacy(v4: &ConnectionParametersV4) -> ConnectionParametersV4 {
    ConnectionParametersV4 { encode_only_video_codecs: vec![], decode_only_video_codecs: vec![], ..v4.clone() }
}

/// A call to one or two devices, and a second call afterwards.
fn calls() {
    rtc(|r| *r = WebRtc::default());
    let (a, b) = (mc::choose(4), mc::choose(4));
    let n = 1 + mc::choose(2) as Dev;
    // an older client on either side drops what it does not know
    let old = mc::choose(3);
    let mut ends = vec![new(1)];
    for _ in 0..n {
        ends.push(new(2));
    }
    let mut keys: BTreeMap<Key, String> = BTreeMap::new();
    let mut publics: Vec<Vec<u8>> = vec![];
    for id in [100, 200] {
        let (caller, callee) = (ends[0].identity.clone(), ends[1].identity.clone());
        let full = call(&mut ends[0], id, a);
        assert_eq!(full.public_key.as_ref().map(|k| k.len()), Some(32), "the public key of the offer");
        publics.extend(full.public_key.clone());
        let offer = if old == 1 { legacy(&full) } else { full.clone() };
        let parent = ends[0].c.w.pc(id, 0).unwrap().told().descriptions;
        assert_eq!(parent.iter().map(|d| d.0).collect::<Vec<_>>(), [false], "the parent's descriptions");
        let made = rtc(|r| r.at(parent[0].1).clone());
        assert_eq!((Some(&made.ufrag), Some(&made.pwd)), (full.ice_ufrag.as_ref(), full.ice_pwd.as_ref()), "ICE credentials of the offer");
        for dev in 1..=n {
            let answer = receive(&mut ends[dev as usize], id, dev, &offer, &caller, b).unwrap_or_else(|| panic!("device {dev} does not answer call {id}"));
            assert_eq!(answer.public_key.as_ref().map(|k| k.len()), Some(32), "the public key of the answer");
            publics.extend(answer.public_key.clone());
            let answer = if old == 2 { legacy(&answer) } else { answer };
            answered(&mut ends[0], id, dev, &answer, &callee);
            if dev == 1 {
                // once more: nothing changes
                answered(&mut ends[0], id, dev, &ConnectionParametersV4 { public_key: Some(publics[0].clone()), ..answer.clone() }, &callee);
            }
            let what = format!("call {id} with device {dev}");
            let (here_offer, here_answer) = both(&ends[0].c, id, dev).unwrap_or_else(|| panic!("{what}: nothing set at the caller"));
            let (there_answer, there_offer) = both(&ends[dev as usize].c, id, 1).unwrap_or_else(|| panic!("{what}: nothing set at the callee"));
            for (d, offer) in [(&here_offer, true), (&here_answer, false), (&there_offer, true), (&there_answer, false)] {
                assert_eq!(d.offer, Some(offer), "{what}: an offer where an answer should be");
            }
            let (o, p) = (key(&here_offer, &what), key(&there_offer, &what));
            assert_eq!(o, p, "{what}: the key of what the caller sends, at the caller and at the callee");
            let (r, s) = (key(&here_answer, &what), key(&there_answer, &what));
            assert_eq!(r, s, "{what}: the key of what the callee sends, at the caller and at the callee");
            for (k, side) in [(o, "caller"), (r, "callee")] {
                if let Some(other) = keys.insert(k, format!("{what}, {side}")) {
                    panic!("{what}, {side}: the same key as {other}");
                }
            }
            for (x, y, side, v4) in [(&here_offer, &there_offer, "offer", &full), (&here_answer, &there_answer, "answer", &answer)] {
                assert_eq!((&x.ufrag, &x.pwd), (&y.ufrag, &y.pwd), "{what}: ICE credentials of the {side} at the caller and at the callee");
                assert_eq!((Some(&x.ufrag), Some(&x.pwd)), (v4.ice_ufrag.as_ref(), v4.ice_pwd.as_ref()), "{what}: ICE credentials of the {side}");
                let of = |l: &[VideoCodec]| l.iter().map(|c| c.r#type.unwrap()).collect::<Vec<_>>();
                assert_eq!(x.codecs[0], of(&v4.receive_video_codecs), "{what}: codecs of the {side} at the caller");
                assert_eq!(y.codecs[0], of(&v4.receive_video_codecs), "{what}: codecs of the {side} at the callee");
                if old == 0 {
                    assert_eq!(x.codecs, y.codecs, "{what}: codecs of the {side} at the caller and at the callee");
                }
            }
            let asymmetric = old == 0;
            for (d, side) in [(&here_offer, "the offer at the caller"), (&here_answer, "the answer at the caller")] {
                assert_eq!(!d.legacy, asymmetric, "{what}: asymmetric codecs in {side}");
                assert_eq!(d.codecs[1].is_empty(), !asymmetric, "{what}: asymmetric codecs in {side}");
            }
            mc::cover(if asymmetric { "asymmetric" } else { "legacy" });
        }
        for e in &mut ends {
            e.c.cm.hangup().unwrap();
            mc::quiesce();
        }
        for dev in 1..=n {
            let mut hangs = vec![];
            hangs.extend(ends[0].c.w.hangups.lock().unwrap().last().copied());
            for h in hangs {
                ends[dev as usize].c.received_hangup(1, id, 1, h);
                mc::quiesce();
            }
        }
        for e in &mut ends {
            let _ = e.c.cm.message_sent(CallId::new(id));
            mc::quiesce();
            assert!(e.c.active().is_none(), "call {id} goes on");
        }
    }
    let all = publics.len();
    publics.sort();
    publics.dedup();
    assert_eq!(publics.len(), all, "a public key was used twice");
    finish(ends);
}

/// Points of low order, and such that reduce to one.
fn low_order() -> Vec<[u8; 32]> {
    let mut v = vec![];
    let mut one = [0u8; 32];
    one[0] = 1;
    v.push([0; 32]);
    v.push(one);
    for s in ["e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"] {
        v.push(hex::decode(s).unwrap().try_into().unwrap());
    }
    // p - 1, p and p + 1
    for last in [0xec, 0xed, 0xee] {
        let mut k = [0xff; 32];
        k[0] = last;
        k[31] = 0x7f;
        v.push(k);
    }
    // the highest bit is ignored
    let high: Vec<_> = v.iter().map(|k| { let mut k = *k; k[31] |= 0x80; k }).collect();
    v.extend(high);
    v
}
fn improper(n: usize) -> Vec<u8> {
    let low = low_order();
    if n < low.len() { low[n].to_vec() } else { vec![7; [0, 1, 31, 33, 64][n - low.len()]] }
}
fn improper_keys() -> usize { low_order().len() + 5 }

/// The harness is the other end: the keys are those of the protocol, or the call ends.
fn other_end(incoming: bool) {
    rtc(|r| *r = WebRtc::default());
    let n = mc::choose(improper_keys() + 4);
    let proper = n < 4;
    let secret = StaticSecret::from([[1; 32], [0x40; 32], [0xff; 32], [0x5a; 32]][n % 4]);
    let public = if proper { PublicKey::from(&secret).to_bytes().to_vec() } else { improper(n - 4) };
    let ours = [identity(1), vec![0; 33], vec![]][mc::choose(3)].clone();
    let theirs = [identity(2), identity(1), vec![]][mc::choose(3)].clone();
    let mut e = new(1);
    e.identity = ours.clone();
    let id = 100;
    let v8 = VideoCodec { r#type: Some(8) };
    let v4 = ConnectionParametersV4 { public_key: Some(public), ice_ufrag: Some("u".into()), ice_pwd: Some("p".into()), receive_video_codecs: vec![v8], ..Default::default() };
    let (keys, want, dev) = if incoming {
        let answer = receive(&mut e, id, 1, &v4, &theirs, 3);
        assert_eq!(answer.is_some(), proper, "an offer with the public key {:?} was answered: {}", v4.public_key, answer.is_some());
        (both(&e.c, id, 1), answer.map(|a| protocol(&secret, a.public_key.as_ref().unwrap(), &theirs, &ours)), 1)
    } else {
        let offer = call(&mut e, id, 3);
        answered(&mut e, id, 7, &v4, &theirs);
        (both(&e.c, id, 7), proper.then(|| protocol(&secret, offer.public_key.as_ref().unwrap(), &ours, &theirs)), 7)
    };
    if proper {
        let (local, remote) = keys.expect("no descriptions were set");
        let want = want.unwrap();
        let (o, a) = if incoming { (remote, local) } else { (local, remote) };
        assert_eq!((key(&o, "offer"), key(&a, "answer")), want, "keys of a call with {dev}");
        mc::cover("proper");
    } else {
        assert!(keys.is_none(), "a description was set after the public key {:?}", v4.public_key);
        let why = ended(&e, id);
        assert!(why.is_some() && e.c.active().is_none(), "a call goes on after the public key {:?}", v4.public_key);
        mc::outcome(&why.unwrap());
        mc::cover("improper");
    }
    finish(vec![e]);
}

/// Somebody in between changes a key, or the ends do not know one another's identities: they have no key in common.
fn between() {
    rtc(|r| *r = WebRtc::default());
    let mut ends = vec![new(1), new(2)];
    let (caller, callee) = (identity(1), identity(2));
    let other = |n: u8| PublicKey::from(&StaticSecret::from([n; 32])).to_bytes().to_vec();
    let what = mc::choose(7);
    let mut offer = call(&mut ends[0], 100, 3);
    if what == 0 || what == 2 {
        offer.public_key = Some(other(3));
    }
    let seen_caller = match what { 3 => identity(9), 5 => callee.clone(), _ => caller.clone() };
    if what == 5 || what == 6 {
        ends[1].identity = caller.clone();
    }
    let mut answer = receive(&mut ends[1], 100, 1, &offer, &seen_caller, 3).expect("an answer");
    if what == 1 || what == 2 {
        answer.public_key = Some(other(4));
    }
    let seen_callee = if what == 4 { identity(9) } else { callee.clone() };
    answered(&mut ends[0], 100, 1, &answer, &seen_callee);
    let (o, a) = both(&ends[0].c, 100, 1).expect("descriptions of the caller");
    let (b, p) = both(&ends[1].c, 100, 1).expect("descriptions of the callee");
    let here = [key(&o, "offer here"), key(&a, "answer here")];
    let there = [key(&p, "offer there"), key(&b, "answer there")];
    for k in &here {
        for l in &there {
            assert!(k.1 != l.1 && k.2 != l.2, "the ends have a key in common although {}", ["the offer's public key was changed", "the answer's public key was changed", "both public keys were changed", "the callee was told of another caller", "the caller was told of another callee", "the callee takes caller and callee for one another", "the callee takes itself for the caller"][what]);
        }
    }
    mc::cover("between");
    finish(ends);
}

pub fn c40() {
    listen(webrtc);
    let mut c = Check::new("C40", "model_checking");
    c.rule("Every combination of codec settings of both ends, one or two called devices, older clients on either side, and two calls in a row; the harness as the other end with proper and improper public keys and different identities; every single thing that somebody in between can change.");
    c.assume("WebRTC is a stand-in that keeps what it is given; random numbers are different each time.");
    let cfg = mc::Config { bound: 0, max_seconds: pick(150, 300), ..Default::default() };
    c.schedules("calls", &cfg, &calls);
    c.schedules("outgoing", &cfg, &|| other_end(false));
    c.schedules("incoming", &cfg, &|| other_end(true));
    c.schedules("between", &cfg, &between);
    c.sample(json!({"improper keys": improper_keys()}));
    c.finish();
}
