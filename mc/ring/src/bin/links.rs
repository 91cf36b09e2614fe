//! C11: call link root keys.  C12: requests to the calling server and their answers.
//! C13: matching of HTTP answers to requests.  C14: resolving opaque member ids.
use std::{
    collections::HashMap,
    sync::{Arc, Mutex as RealMutex},
    time::Duration,
};

use mclib::{Check, bfs, ensure, pick};
use mcstd::{mc, thread};
use rand::{CryptoRng, RngCore};
use ringrtc::lite::{
    call_links::{self, CallLinkMemberResolver, CallLinkRestrictions, CallLinkRootKey, CallLinkState},
    http::{self, Client, DelegatingClient},
    sfu::{self, GroupMember, MemberMap, MemberResolver, PeekArgs, PeekInfo},
};
use serde_json::json;

// ---------------------------------------------------------------------------------------------
// C11

const ALPHABET: &[u8; 16] = b"bcdfghkmnpqrstxz";
fn base16(b: &[u8]) -> String {
    b.iter().flat_map(|b| [ALPHABET[(b >> 4) as usize] as char, ALPHABET[(b & 15) as usize] as char]).collect()
}
/// The documented text of a key: groups of 2 bytes (first version) or of 4 bytes, version, epoch.
fn text(b: &[u8]) -> String {
    if b.len() == 16 {
        b.chunks(2).map(base16).collect::<Vec<_>>().join("-")
    } else {
        let mut v: Vec<String> = b[..16].chunks(4).map(base16).collect();
        v.push(base16(&b[16..17]));
        v.push(base16(&b[17..]));
        v.join("-")
    }
}
fn repeated(crn: &[u8]) -> bool {
    crn.chunks(2).any(|p| p[0] == p[1] && p[0] >> 4 == p[0] & 15)
}
fn acceptable(b: &[u8]) -> bool {
    match b.len() {
        16 => !repeated(b),
        25 => false,
        21 => !repeated(&b[..16]) && b[16] & 0x7f == 1,
        _ => false,
    }
}
fn crn(n: u64) -> [u8; 16] {
    let mut c = [0u8; 16];
    for (i, b) in c.iter_mut().enumerate() {
        *b = (i as u8).wrapping_mul(37).wrapping_add((n as u8).wrapping_mul(11)) ^ (n >> 8) as u8;
    }
    // keep adjacent pairs apart
    for p in c.chunks_mut(2) {
        if p[0] == p[1] {
            p[1] ^= 0x53;
        }
    }
    c
}
fn v1(n: u64, version: u8, epoch: u32) -> Vec<u8> {
    let mut v = crn(n).to_vec();
    v.push(version);
    v.extend(epoch.to_be_bytes());
    v
}

/// A generator that yields a fixed sequence of bytes.
#[derive(Clone)]
struct Script(Vec<u8>, usize);
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.0[self.1 % self.0.len()];
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Script {}

fn check_bytes(b: &[u8]) -> Result<Option<CallLinkRootKey>, String> {
    let k = CallLinkRootKey::try_from(b);
    ensure!(k.is_ok() == acceptable(b), "bytes {b:02x?} are {}accepted", if k.is_ok() { "" } else { "not " });
    let Ok(k) = k else { return Ok(None) };
    ensure!(k.as_slice() == b, "key of bytes {b:02x?} has bytes {:02x?}", k.as_slice());
    ensure!(k.is_valid() == (b.len() == 16 || b[16] & 0x80 == 0), "key {b:02x?} valid: {}", k.is_valid());
    Ok(Some(k))
}
fn check_text(s: &str, must: Option<&[u8]>) -> Result<bool, String> {
    match CallLinkRootKey::try_from(s) {
        Ok(k) => {
            ensure!(k.to_formatted_string() == s, "{s:?} is accepted as the key that is written {:?}", k.to_formatted_string());
            ensure!(acceptable(k.as_slice()), "{s:?} gives the malformed key {:02x?}", k.as_slice());
            ensure!(must.is_none_or(|m| m == k.as_slice()), "{s:?} gives key {:02x?}", k.as_slice());
            Ok(true)
        }
        Err(e) => {
            ensure!(must.is_none(), "{s:?} is not accepted: {e}");
            Ok(false)
        }
    }
}

fn c11() {
    let mut c = Check::new("C11", "exploration");
    c.rule("Bytes: every length, version byte and position of a repeated pair; texts: every single character edit, insertion, deletion, swap, truncation and extension of texts of both kinds of key, and every pairing of their groups; encryption: every length of name with special tails, every tampered bit. A case is non-trivial if a key was accepted or a message round-tripped.");
    c.assume("AES-GCM-SIV and HKDF from the RustCrypto crates.");

    c.enumerate("bytes", 40 + 256 * 8 + 65536, |i| {
        if i < 40 {
            let b: Vec<u8> = v1(1, 1, 7).into_iter().chain(crn(3)).chain(crn(4)).take(i as usize).collect();
            Ok(check_bytes(&b)?.is_some())
        } else if i < 40 + 256 * 8 {
            let i = i - 40;
            let b = v1(i / 256, (i % 256) as u8, [0, 1, 0x80, u32::MAX, 0x0102_0304, 1 << 31, 99, 4096][(i / 256) as usize]);
            Ok(check_bytes(&b)?.is_some())
        } else {
            // every value of one pair, the position varying
            let i = i - 40 - 256 * 8;
            let mut any = false;
            for (k, pos) in [(0usize, i % 8), (1, (i / 7) % 8)] {
                let mut b = if k == 0 { crn(5).to_vec() } else { v1(6, 1, 5) };
                b[pos as usize * 2] = i as u8;
                b[pos as usize * 2 + 1] = (i >> 8) as u8;
                if let Some(key) = check_bytes(&b)? {
                    any = true;
                    ensure!(key.to_formatted_string() == text(&b), "key {b:02x?} is written {:?}", key.to_formatted_string());
                    check_text(&key.to_formatted_string(), Some(&b))?;
                    ensure!(format!("{key:?}") == text(&b), "key {b:02x?} debugs as {key:?}");
                }
            }
            Ok(any)
        }
    });

    let samples: Vec<Vec<u8>> = vec![crn(1).to_vec(), crn(200).to_vec(), v1(2, 1, 0xdead_beef), v1(3, 0x81, 0), v1(4, 1, 0)];
    let alphabet: Vec<char> = (0u8..128).map(|b| b as char).chain("é😀ｂ\u{430}".chars()).collect();
    let mut texts: Vec<String> = vec![];
    for s in &samples {
        let t = text(s);
        let cs: Vec<char> = t.chars().collect();
        let string = |v: Vec<char>| v.into_iter().collect::<String>();
        texts.push(t.clone());
        for i in 0..=cs.len() {
            for &a in &alphabet {
                let mut v = cs.clone();
                v.insert(i, a);
                texts.push(string(v));
                if i < cs.len() {
                    let mut v = cs.clone();
                    v[i] = a;
                    texts.push(string(v));
                }
            }
            texts.push(string(cs[..i].to_vec()));
            texts.push(string(cs[i..].to_vec()));
            for j in i..cs.len() {
                let mut v = cs.clone();
                v.swap(i, j);
                texts.push(string(v));
                let mut v = cs.clone();
                v.drain(i..=j);
                texts.push(string(v));
            }
        }
        texts.push(t.to_uppercase());
        texts.push(t.replace('-', ""));
        texts.push(t.replace('-', "--"));
        // everything short that could follow or precede
        let tail = ['-', 'b', 'c', 'z', ' ', '#', '\0', 'é'];
        for a in tail {
            for b in tail {
                for d in tail {
                    for x in [format!("{a}{b}{d}"), format!("{a}{b}{d}{a}{b}"), format!("{a}{b}")] {
                        texts.push(format!("{t}{x}"));
                        texts.push(format!("{x}{t}"));
                    }
                }
            }
        }
        for o in &samples {
            texts.push(format!("{t}-{}", text(o)));
            texts.push(format!("{t}{}", text(o)));
            // every mix of their groups
            let (a, b): (Vec<&str>, String) = (t.split('-').collect(), text(o));
            let b: Vec<&str> = b.split('-').collect();
            for i in 0..=a.len() {
                for j in 0..=b.len() {
                    texts.push([&a[..i], &b[j..]].concat().join("-"));
                }
            }
        }
    }
    texts.sort();
    texts.dedup();
    let spelled: HashMap<String, Vec<u8>> = samples.iter().map(|s| (text(s), s.clone())).collect();
    c.enumerate("texts", texts.len() as u64, |i| {
        let t = &texts[i as usize];
        check_text(t, spelled.get(t).map(|b| &b[..]))
    });

    // generation avoids repeated pairs whatever the random source yields first
    c.enumerate("generation", 8 * 16 * 3, |i| {
        let (pos, digit, bad) = ((i % 8) as usize, (i / 8 % 16) as u8, i / 128);
        let mut stream = vec![];
        for k in 0..=bad {
            let mut b = crn(50 + k);
            b[pos * 2] = digit * 17;
            b[pos * 2 + 1] = digit * 17;
            stream.extend(b);
        }
        let good = crn(77);
        stream.extend(good);
        let k = CallLinkRootKey::generate(Script(stream, 0));
        ensure!(k.as_slice()[..16] == good, "generated {:02x?}", k.as_slice());
        ensure!(!k.is_valid() && acceptable(k.as_slice()), "a generated key must wait for its epoch: {:02x?}", k.as_slice());
        ensure!(check_text(&k.to_formatted_string(), Some(k.as_slice()))?, "generated key is not accepted");
        ensure!(CallLinkRootKey::generate_admin_passkey(Script(good.to_vec(), 0)) == good, "pass key is not the random bytes");
        Ok(true)
    });

    // names
    let rng = |n: u64| Script((0..97).map(|i| (i * 5 + n * 13 + 1) as u8).collect(), n as usize);
    let tails: [&[u8]; 6] = [b"", b"\x80", b"\x80\x00\x00", b"\x00", b"\x00\x00\x80\x80", b"\x80\x00"];
    c.enumerate("names", 140 * 6 * 3, |i| {
        let (len, tail, kk) = ((i % 140) as usize, tails[(i / 140 % 6) as usize], i / 840);
        let key = CallLinkRootKey::try_from(&samples[[0, 2, 3][kk as usize]][..]).unwrap();
        let mut plain: Vec<u8> = (0..len).map(|x| (x * 31) as u8).collect();
        plain.extend(tail);
        let enc = key.encrypt(&plain, rng(i));
        ensure!(key.decrypt(&enc).ok().as_ref() == Some(&plain), "a name of {} bytes does not survive", plain.len());
        ensure!(enc.len() > plain.len() && (enc.len() - 16) % 32 == 0, "a name of {} bytes is encrypted to {} bytes, which tells its length", plain.len(), enc.len());
        let same: Vec<u8> = key.encrypt(&plain, rng(i + 1));
        ensure!(same != enc, "two encryptions are equal");
        // another key, or the other version of the same key, does not open it
        for o in [&samples[1][..], &samples[4], &if samples[0].len() == 16 { v1(1, 1, 3) } else { vec![] }] {
            let ok = CallLinkRootKey::try_from(o).unwrap();
            ensure!(ok.decrypt(&enc).is_err(), "another key opens the name");
        }
        // keys of the same room before and after it got its epoch agree
        if kk == 2 {
            let with = CallLinkRootKey::try_from(&v1(3, 1, 12345)[..]).unwrap();
            ensure!(with.decrypt(&enc).ok().as_ref() == Some(&plain), "the epoch must not change the key");
            ensure!(with.derive_room_id() == key.derive_room_id(), "the epoch must not change the room");
        }
        for bit in 0..enc.len() * 8 {
            if len > 40 && bit % 7 != (i % 7) as usize {
                continue;
            }
            let mut e = enc.clone();
            e[bit / 8] ^= 1 << (bit % 8);
            ensure!(key.decrypt(&e).is_err(), "altered bit {bit} goes unnoticed");
        }
        for cut in 0..enc.len() {
            ensure!(key.decrypt(&enc[..cut]).is_err(), "a name cut to {cut} bytes is accepted");
        }
        Ok(true)
    });

    // a key identifies its room: as text, bytes and after creation
    c.enumerate("rooms", 64 * 64, |i| {
        let (a, b) = (i / 64, i % 64);
        let ka = CallLinkRootKey::try_from(&crn(a)[..]).unwrap();
        let kb = CallLinkRootKey::try_from(&v1(b, 1, a as u32)[..]).unwrap();
        ensure!((ka.derive_room_id() == kb.derive_room_id()) == (a == b), "rooms {a} and {b}");
        ensure!(ka.derive_room_id().len() == 32, "room id of {} bytes", ka.derive_room_id().len());
        let (mut ha, mut hb) = (HashMap::new(), HashMap::new());
        ka.prepare_http_headers(&mut ha);
        kb.prepare_http_headers(&mut hb);
        ensure!(ha.get("X-Room-Id") == Some(&hex::encode(ka.derive_room_id())) && ha.len() == 1, "headers {ha:?}");
        ensure!(hb.get("X-Room-Id") == Some(&hex::encode(kb.derive_room_id())), "headers {hb:?}");
        ensure!(hb.get("X-Epoch") == Some(&a.to_string()) && hb.len() == 2, "headers {hb:?}");
        Ok(a == b)
    });
    c.finish();
}

// ---------------------------------------------------------------------------------------------
// C12

#[derive(Default)]
struct Wire {
    sent: RealMutex<Vec<(http::Request, Option<http::ResponseCallback>)>>,
}
impl http::Client for Wire {
    fn send_request(&self, r: http::Request, cb: http::ResponseCallback) {
        self.sent.lock().unwrap().push((r, Some(cb)));
    }
}
impl Wire {
    /// The only request, and its callback.
    fn take(&self) -> Result<(http::Request, http::ResponseCallback), String> {
        let mut v = self.sent.lock().unwrap();
        ensure!(v.len() == 1, "{} requests were sent instead of 1", v.len());
        let (r, cb) = v.pop().unwrap();
        Ok((r, cb.unwrap()))
    }
}
fn b64(b: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::STANDARD.encode(b)
}
type Got<T> = Arc<RealMutex<Vec<Result<T, u16>>>>;
fn got<T>() -> Got<T> {
    Arc::new(RealMutex::new(vec![]))
}
fn only<T>(g: &Got<T>) -> Result<Result<T, u16>, String> {
    let mut v = g.lock().unwrap();
    ensure!(v.len() == 1, "the result callback ran {} times", v.len());
    Ok(v.pop().unwrap())
}
fn resp(status: u16, body: &[u8]) -> Option<http::Response> {
    Some(http::Response { status: status.into(), body: body.to_vec() })
}
fn keys() -> Vec<CallLinkRootKey> {
    [&crn(1)[..], &v1(2, 1, 0xdead_beef), &v1(3, 0x81, 0)].iter().map(|b| CallLinkRootKey::try_from(*b).unwrap()).collect()
}

const EXPIRATIONS: [u64; 9] = [0, 1, 1_700_000_000, u32::MAX as u64, 1 << 40, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX];

struct StateCase {
    body: serde_json::Value,
    name: String,
    restrictions: CallLinkRestrictions,
    revoked: bool,
    expiration: u64,
    epoch: Option<u32>,
}
fn state_cases(key: &CallLinkRootKey) -> Vec<StateCase> {
    // a link created without an epoch falls back to the first kind of key
    let old = if key.is_valid() { *key } else { CallLinkRootKey::try_from(&key.as_slice()[..16]).unwrap() };
    let mut v = vec![];
    let names = |key: &CallLinkRootKey| -> Vec<(String, String)> { vec![
        ("".into(), "".into()),
        (b64(&key.encrypt("Sürprise 🎉".as_bytes(), Script((0..50).collect(), 0))), "Sürprise 🎉".into()),
        (b64(&key.encrypt(b"", Script((9..50).collect(), 0))), "".into()),
        (b64(&key.encrypt(&[0xff, 0xfe], Script((9..50).collect(), 0))), "".into()),
        (b64(b"too short"), "".into()),
        ("not base64!".into(), "".into()),
    ] };
    let (old, new) = (names(&old), names(key));
    let names: Vec<((String, String), String)> = new.into_iter().zip(old).map(|(n, o)| (n, o.0)).collect();
    for (n, ((enc, name), old)) in names.iter().enumerate() {
        for (r, restrictions) in [("none", CallLinkRestrictions::None), ("adminApproval", CallLinkRestrictions::AdminApproval), ("somethingNew", CallLinkRestrictions::Unknown)] {
            for revoked in [false, true] {
                for (e, &expiration) in EXPIRATIONS.iter().enumerate() {
                    if n > 1 && e > 1 && e < 8 {
                        continue;
                    }
                    for epoch in [None, Some(0u32), Some(u32::MAX)] {
                        let enc = if epoch.is_some() { enc } else { old };
                        let mut body = json!({"name": enc, "restrictions": r, "revoked": revoked, "expiration": expiration, "ignored": [1, {}]});
                        if let Some(e) = epoch {
                            body["epoch"] = e.into();
                        }
                        v.push(StateCase { body, name: name.clone(), restrictions: restrictions.clone(), revoked, expiration, epoch });
                    }
                }
            }
        }
    }
    v
}
fn check_state(s: &CallLinkState, want: &StateCase, key: &[u8]) -> Result<(), String> {
    ensure!(s.name == want.name, "name {:?}, expected {:?}", s.name, want.name);
    ensure!(s.restrictions == want.restrictions, "restrictions {:?}", s.restrictions);
    ensure!(s.revoked == want.revoked, "revoked {:?}", s.revoked);
    ensure!(s.root_key.as_slice() == key, "root key {:02x?}, expected {key:02x?}", s.root_key.as_slice());
    let secs = s.expiration.duration_since(mcstd::time::SystemTime::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
    // times beyond what the platform can express may be any far future
    ensure!(secs == want.expiration || (want.expiration > 1 << 39 && secs > 1 << 37), "expires at {secs}, expected {}", want.expiration);
    Ok(())
}

const ROUTES: [&str; 4] = ["https://sfu.example", "https://sfu.example/", "https://sfu.example//", "http://h:1/p/"];

fn bad_bodies(good: &serde_json::Value) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], b"null".to_vec(), b"[]".to_vec(), b"\xff\xfe".to_vec(), b"{}".to_vec(), b"404".to_vec()];
    if let Some(o) = good.as_object() {
        for k in o.keys() {
            for val in [json!(null), json!([]), json!(-1), json!({"a": 1}), json!("x"), json!(1.5)] {
                let mut b = good.clone();
                b[k] = val;
                v.push(b.to_string().into_bytes());
            }
            let mut b = good.clone();
            b.as_object_mut().unwrap().remove(k);
            v.push(b.to_string().into_bytes());
        }
    }
    let s = good.to_string().into_bytes();
    for i in 0..s.len() {
        v.push(s[..i].to_vec());
        let mut t = s.clone();
        t[i] = 0xc3;
        v.push(t);
    }
    v
}

/// Statuses that stand for every class, and all the special ones.
fn error_statuses() -> Vec<u16> {
    (0..=999).filter(|s| !(200..300).contains(s)).chain([65535, 1200, 2000]).collect()
}

struct Resolver;
fn resolve(s: &str) -> Option<Vec<u8>> {
    s.strip_prefix("known").map(|x| x.as_bytes().to_vec())
}
impl MemberResolver for Resolver {
    fn resolve(&self, s: &str) -> Option<Vec<u8>> {
        resolve(s)
    }
    fn resolve_bytes(&self, s: &[u8]) -> Option<Vec<u8>> {
        resolve(std::str::from_utf8(s).ok()?)
    }
}

fn headers_for(key: Option<&CallLinkRootKey>, room: Option<&str>, auth: &str, content: bool) -> HashMap<String, String> {
    let mut h = HashMap::new();
    h.insert("Authorization".into(), auth.into());
    if content {
        h.insert("Content-Type".into(), "application/json".into());
    }
    match key {
        Some(k) => {
            h.insert("X-Room-Id".into(), hex::encode(k.derive_room_id()));
            if k.as_slice().len() == 21 && k.is_valid() {
                h.insert("X-Epoch".into(), u32::from_be_bytes(k.as_slice()[17..].try_into().unwrap()).to_string());
            }
        }
        None => {
            if let Some(r) = room {
                h.insert("X-Room-Id".into(), r.into());
            }
        }
    }
    h
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Read,
    Create,
    Update,
    Delete,
}
const OPS: [Op; 4] = [Op::Read, Op::Create, Op::Update, Op::Delete];

fn update_request<'a>(variant: u64, name: &'a [u8]) -> (call_links::CallLinkUpdateRequest<'a>, serde_json::Value) {
    let mut want = json!({"adminPasskey": b64(b"pass")});
    let mut r = call_links::CallLinkUpdateRequest { admin_passkey: b"pass", ..Default::default() };
    if variant & 1 != 0 {
        r.encrypted_name = Some(name);
        want["name"] = b64(name).into();
    }
    match variant >> 1 & 3 {
        1 => {
            r.restrictions = Some(CallLinkRestrictions::None);
            want["restrictions"] = "none".into();
        }
        2 => {
            r.restrictions = Some(CallLinkRestrictions::AdminApproval);
            want["restrictions"] = "adminApproval".into();
        }
        _ => {}
    }
    match variant >> 3 % 3 {
        1 => {
            r.revoked = Some(false);
            want["revoked"] = false.into();
        }
        2 => {
            r.revoked = Some(true);
            want["revoked"] = true.into();
        }
        _ => {}
    }
    (r, want)
}

/// Starts an operation and checks the request; hands back the way to answer it.
fn start(op: Op, key: CallLinkRootKey, url: &str, variant: u64, out: &Got<Option<CallLinkState>>) -> Result<Option<http::ResponseCallback>, String> {
    let w = Wire::default();
    let o = out.clone();
    let cb: call_links::ReadCallLinkResultCallback = Box::new(move |r| o.lock().unwrap().push(r.map(Some).map_err(|s| s.code)));
    let o2 = out.clone();
    let auth = b"\x00presentation\xff";
    let mut want_body = None;
    match op {
        Op::Read => call_links::read_call_link(&w, url, key, auth, cb),
        Op::Create => {
            let restr = [None, Some(CallLinkRestrictions::None), Some(CallLinkRestrictions::AdminApproval)][(variant % 3) as usize].clone();
            let mut b = json!({"adminPasskey": b64(b"pass"), "zkparams": b64(b"zk\x01\x02")});
            match variant % 3 {
                1 => b["restrictions"] = "none".into(),
                2 => b["restrictions"] = "adminApproval".into(),
                _ => {}
            }
            want_body = Some(b);
            call_links::create_call_link(&w, url, key, auth, b"pass", b"zk\x01\x02", restr, cb)
        }
        Op::Update => {
            let (r, want) = update_request(variant, b"name\xf0\x00");
            want_body = Some(want);
            call_links::update_call_link(&w, url, key, auth, &r, cb)
        }
        Op::Delete => {
            want_body = Some(json!({"adminPasskey": b64(b"pass")}));
            let r = call_links::CallLinkDeleteRequest { admin_passkey: b"pass" };
            call_links::delete_call_link(&w, url, key, auth, &r, Box::new(move |r| o2.lock().unwrap().push(r.map(|_| None).map_err(|s| s.code))))
        }
    }
    // a link may be created once, and only used after
    let allowed = (op == Op::Create) != key.is_valid();
    if !allowed {
        let code = only(out)?.err();
        let want = if op == Op::Create { 705 } else { 704 };
        ensure!(code == Some(want), "{op:?} of a {} link ended with {code:?}", if key.is_valid() { "created" } else { "not yet created" });
        ensure!(w.sent.lock().unwrap().is_empty(), "{op:?} was refused but sent");
        return Ok(None);
    }
    ensure!(out.lock().unwrap().is_empty(), "{op:?} has a result before its answer");
    let (r, cb) = w.take()?;
    let method = match op {
        Op::Read => http::Method::Get,
        Op::Delete => http::Method::Delete,
        _ => http::Method::Put,
    };
    ensure!(r.method == method, "{op:?} is sent as {:?}", r.method);
    ensure!(r.url == format!("{}/v1/call-link", url.trim_end_matches('/')), "{op:?} is sent to {:?}", r.url);
    let kind = if op == Op::Create { "create" } else { "auth" };
    let want = headers_for(Some(&key), None, &format!("Bearer {kind}.{}", b64(auth)), true);
    ensure!(r.headers == want, "{op:?} has headers {:?}, expected {want:?}", r.headers);
    match (&r.body, want_body) {
        (None, None) => {}
        (Some(b), Some(w)) => {
            let b: serde_json::Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
            ensure!(b == w, "{op:?} sends {b}, expected {w}");
        }
        (b, w) => return Err(format!("{op:?} sends {b:?}, expected {w:?}")),
    }
    Ok(Some(cb))
}

fn c12() {
    let mut c = Check::new("C12", "exploration");
    c.rule("Every operation on call links (with keys of every kind, every combination of optional fields) and every peek and join against every status code and every body: well-formed ones over the product of their fields, and each of them truncated, with every field missing or of every wrong type. Non-trivial: a request was sent and answered.");
    c.assume("JSON and base64 are those of the serde_json and base64 crates.");

    c.enumerate("requests", 4 * 3 * 4 * 24, |i| {
        let (op, k, url, variant) = (OPS[(i % 4) as usize], (i / 4 % 3) as usize, ROUTES[(i / 12 % 4) as usize], i / 48);
        let out = got();
        Ok(start(op, keys()[k], url, variant, &out)?.is_some())
    });

    // well-formed answers
    for (ki, key) in keys().into_iter().enumerate() {
        let cases = state_cases(&key);
        c.enumerate(&format!("states_key{ki}"), cases.len() as u64 * 3 * 2, |i| {
            let case = &cases[(i / 6) as usize];
            let op = [Op::Read, Op::Create, Op::Update][(i / 2 % 3) as usize];
            let status = [200, 299][(i % 2) as usize];
            let out = got();
            let Some(cb) = start(op, key, ROUTES[0], 0, &out)? else { return Ok(false) };
            cb(resp(status, case.body.to_string().as_bytes()));
            let mut want = key.as_slice().to_vec();
            if op == Op::Create {
                // the new link gets its epoch, or falls back to the first kind of key
                want.truncate(16);
                if let Some(e) = case.epoch {
                    want.push(1);
                    want.extend(e.to_be_bytes());
                }
            }
            match only(&out)? {
                Ok(Some(s)) => check_state(&s, case, &want)?,
                r => return Err(format!("{op:?} answered with {} gives {:?}", case.body, r.map(|_| ()))),
            }
            Ok(true)
        });
    }
    // failures
    let statuses = error_statuses();
    let good = json!({"name": "", "restrictions": "none", "revoked": false, "expiration": 7});
    let bad = bad_bodies(&good);
    let n = statuses.len() as u64;
    c.enumerate("failures", 4 * (n + 1 + bad.len() as u64), |i| {
        let op = OPS[(i % 4) as usize];
        let key = keys()[if op == Op::Create { 2 } else { 1 }];
        let i = i / 4;
        let out = got();
        let cb = start(op, key, ROUTES[0], 0, &out)?.ok_or("not sent")?;
        let want: Vec<Option<u16>> = if i < n {
            let s = statuses[i as usize];
            cb(resp(s, if i % 2 == 0 { b"" } else { b"{}" }));
            vec![Some(s)]
        } else if i == n {
            cb(None);
            vec![Some(602)]
        } else {
            let body = &bad[(i - n - 1) as usize];
            cb(resp(200, body));
            // optional things may be missing or null, an object is enough to acknowledge a deletion
            let parsed = serde_json::from_slice::<serde_json::Value>(body).ok();
            let fine = parsed.as_ref().is_some_and(|v| {
                if op == Op::Delete {
                    return v.is_object() || v.as_array().is_some_and(|a| a.is_empty());
                }
                v["name"].is_string() && v["restrictions"].is_string() && v["revoked"].is_boolean() && v["expiration"].is_u64()
            });
            if op == Op::Delete && std::str::from_utf8(body).is_err() {
                vec![None, Some(702)] // text that nobody reads
            } else if fine {
                vec![None]
            } else {
                vec![Some(702)]
            }
        };
        let r = only(&out)?;
        let code = r.as_ref().err().copied();
        ensure!(want.contains(&code), "{op:?} failure {i}: result {:?}, expected {want:?} (body {:?})", r.map(|_| "a state").err(), (i > n).then(|| String::from_utf8_lossy(&bad[(i - n - 1) as usize]).to_string()));
        Ok(true)
    });

    // peek
    let key = keys()[1];
    let states = state_cases(&key);
    let run_peek = |key: Option<CallLinkRootKey>, room: Option<&str>, url: &str, answer: Option<http::Response>| -> Result<Option<Result<PeekInfo, u16>>, String> {
        let w = Wire::default();
        let out: Got<PeekInfo> = got();
        let o = out.clone();
        let args = PeekArgs { room_id_header: room.map(Into::into), auth_header: "secret".into(), member_resolver: Arc::new(Resolver), call_link_root_key: key };
        sfu::peek(&w, url, args, Box::new(move |r| o.lock().unwrap().push(r.map_err(|s| s.code))));
        if key.is_some_and(|k| !k.is_valid()) {
            ensure!(only(&out)?.err() == Some(704) && w.sent.lock().unwrap().is_empty(), "peeked at a link that was not created");
            return Ok(None);
        }
        let (r, cb) = w.take()?;
        ensure!(out.lock().unwrap().is_empty(), "a result before the answer");
        ensure!(r.method == http::Method::Get && r.body.is_none() && r.url == format!("{}/v2/conference/participants", url.trim_end_matches('/')), "peek is {r:?}");
        let want = headers_for(key.as_ref(), room, "secret", false);
        ensure!(r.headers == want, "peek has headers {:?}, expected {want:?}", r.headers);
        cb(answer);
        Ok(Some(only(&out)?))
    };
    let ids: [Option<&str>; 4] = [None, Some("knownA"), Some("knownB"), Some("stranger")];
    // devices: every list of up to 3 over the ids, in both places
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut last = lists.clone();
    for _ in 0..3 {
        last = last.iter().flat_map(|l| (0..4).map(move |x| [&l[..], &[x]].concat())).collect();
        lists.extend(last.clone());
    }
    let dev = |l: &[usize], base: u32| -> Vec<serde_json::Value> {
        l.iter()
            .enumerate()
            .map(|(i, x)| {
                let mut d = json!({"demuxId": base + 16 * i as u32, "extra": 1});
                if let Some(s) = ids[*x] {
                    d["opaqueUserId"] = s.into();
                } else if i % 2 == 0 {
                    d["opaqueUserId"] = json!(null);
                }
                d
            })
            .collect()
    };
    let nl = lists.len() as u64;
    c.enumerate("peek_devices", nl * nl * 4, |i| {
        let (a, b, m) = (&lists[(i % nl) as usize], &lists[(i / nl % nl) as usize], i / nl / nl);
        let mut body = json!({"participants": dev(a, 16)});
        if m & 1 != 0 {
            body["pendingClients"] = dev(b, 1 << 20).into();
            body["conferenceId"] = "era".into();
            body["creator"] = "knownC".into();
        }
        if m & 2 != 0 {
            body["maxDevices"] = 75.into();
            if m & 1 == 0 {
                body["creator"] = "stranger".into();
            }
        }
        let r = run_peek(None, Some("room"), ROUTES[(i % 4) as usize], resp(200, body.to_string().as_bytes()))?.unwrap();
        let p = r.map_err(|e| format!("peek {body} failed with {e}"))?;
        let devs = |l: &[usize], base: u32| -> Vec<(u32, Option<Vec<u8>>)> { l.iter().enumerate().map(|(i, x)| (base + 16 * i as u32, ids[*x].and_then(resolve))).collect() };
        let has = |d: &[sfu::PeekDeviceInfo]| -> Vec<(u32, Option<Vec<u8>>)> { d.iter().map(|d| (d.demux_id, d.user_id.clone())).collect() };
        let want_pending = if m & 1 != 0 { devs(b, 1 << 20) } else { vec![] };
        ensure!(has(&p.devices) == devs(a, 16), "peek {body} gives devices {:?}", p.devices);
        ensure!(has(&p.pending_devices) == want_pending, "peek {body} gives pending devices {:?}", p.pending_devices);
        ensure!(p.device_count_including_pending_devices() == a.len() + want_pending.len(), "device count");
        let users: std::collections::BTreeSet<Vec<u8>> = devs(a, 0).into_iter().filter_map(|d| d.1).collect();
        ensure!(p.unique_users().into_iter().cloned().collect::<std::collections::BTreeSet<_>>() == users, "users {:?}", p.unique_users());
        let mut pend: Vec<Vec<u8>> = vec![];
        for u in want_pending.into_iter().filter_map(|d| d.1) {
            if !pend.contains(&u) {
                pend.push(u);
            }
        }
        ensure!(p.unique_pending_users().into_iter().cloned().collect::<Vec<_>>() == pend, "pending users of {body} are {:?}", p.unique_pending_users());
        ensure!(p.era_id.as_deref() == (m & 1 != 0).then_some("era"), "era {:?}", p.era_id);
        ensure!(p.creator == (m & 1 != 0).then(|| b"C".to_vec()), "creator {:?}", p.creator);
        ensure!(p.max_devices == (m & 2 != 0).then_some(75) && p.call_link_state.is_none(), "peek {p:?}");
        Ok(!a.is_empty())
    });
    c.enumerate("peek_link_states", states.len() as u64 * 4, |i| {
        let case = &states[(i / 4) as usize];
        let body = json!({"participants": [], "callLinkState": case.body});
        let key = [None, Some(keys()[0]), Some(keys()[1]), Some(keys()[2])][(i % 4) as usize];
        let Some(r) = run_peek(key, (i % 3 == 0).then_some("room"), ROUTES[0], resp(200, body.to_string().as_bytes()))? else { return Ok(false) };
        let p = r.map_err(|e| format!("peek {body} failed with {e}"))?;
        match (key, &p.call_link_state) {
            (None, None) => {}
            (Some(k), Some(s)) if i % 4 == 2 => check_state(s, case, k.as_slice())?,
            (Some(k), Some(s)) => {
                // encrypted for another key: everything but the name
                ensure!(s.name.is_empty(), "the name {:?} was read with another key", s.name);
                ensure!(s.revoked == case.revoked && s.restrictions == case.restrictions && s.root_key == k, "state {s:?}");
            }
            (k, s) => return Err(format!("key {k:?} gives state {s:?}")),
        }
        Ok(true)
    });
    let good = json!({"participants": [{"demuxId": 16, "opaqueUserId": "knownA"}], "maxDevices": 3, "conferenceId": "e", "creator": "knownB", "pendingClients": []});
    let bad = bad_bodies(&good);
    let reasons: [(&[u8], u16); 8] = [
        (br#"{"reason":"expired"}"#, 703),
        (br#"{"reason":"invalid"}"#, 704),
        (br#"{"reason":"Expired"}"#, 404),
        (br#"{"reason":"other"}"#, 404),
        (br#"{"reason":7}"#, 404),
        (br#"{}"#, 404),
        (b"\xff", 404),
        (br#"{"reason":"expired"#, 404),
    ];
    let n = statuses.len() as u64;
    c.enumerate("peek_failures", 2 * (n + 9 + bad.len() as u64), |i| {
        let key = (i % 2 == 1).then(|| keys()[1]);
        let i = i / 2;
        let (answer, want) = if i < n {
            let s = statuses[i as usize];
            // nobody in the call
            (resp(s, b""), (s != 404).then_some(s))
        } else if i < n + 8 {
            let (b, s) = reasons[(i - n) as usize];
            (resp(404, b), Some(s))
        } else if i == n + 8 {
            (None, Some(602))
        } else {
            let body = &bad[(i - n - 9) as usize];
            let p = serde_json::from_slice::<serde_json::Value>(body).ok();
            let str_or_null = |v: &serde_json::Value| v.is_null() || v.is_string();
            let list = |v: &serde_json::Value| v.as_array().is_some_and(|a| a.iter().all(|d| d["demuxId"].is_u64() && str_or_null(&d["opaqueUserId"])));
            let fine = p.is_some_and(|v| {
                list(&v["participants"]) && (v.get("pendingClients").is_none() || list(&v["pendingClients"])) && str_or_null(&v["conferenceId"]) && str_or_null(&v["creator"]) && (v["maxDevices"].is_null() || v["maxDevices"].is_u64())
            });
            (resp(200, body), (!fine).then_some(702))
        };
        let empty = i < n && want.is_none();
        let r = run_peek(key, Some("room"), ROUTES[0], answer)?.unwrap();
        if empty {
            ensure!(r == Ok(PeekInfo::default()), "an empty call peeks as {r:?}");
        }
        ensure!(r.as_ref().err().copied() == want, "peek failure {i}: {r:?}, expected {want:?}");
        Ok(true)
    });

    // the same state sent over the media connection
    use ringrtc::protobuf::group_call::sfu_to_device::{PeekInfo as P, peek_info::{CallLinkState as L, PeekDeviceInfo as D}};
    c.enumerate("peek_protos", 3 * 81 * 16 * 9, |i| {
        let (keyi, f, lm, ex) = (i % 3, i / 3 % 81, i / 243 % 16, (i / 3888) as usize);
        let key = [None, Some(keys()[0]), Some(keys()[1])][keyi as usize];
        let d = |x: u64, base: u32| -> Option<D> {
            match x {
                0 => None,
                1 => Some(D { demux_id: Some(base), opaque_user_id: Some("knownA".into()) }),
                _ => Some(D { demux_id: None, opaque_user_id: Some("knownB".into()) }),
            }
        };
        let p1 = D { demux_id: Some(48), opaque_user_id: None };
        let name = key.map(|k| b64(&k.encrypt(b"nm", Script((0..50).collect(), 0)))).unwrap_or_default();
        let proto = P {
            devices: [Some(p1.clone()), d(f % 3, 16)].into_iter().flatten().collect(),
            pending_devices: [d(f / 3 % 3, 32), Some(p1)].into_iter().flatten().collect(),
            creator: [None, Some("knownX".to_string()), Some("odd".into())][(f / 9 % 3) as usize].clone(),
            era_id: (f / 27 % 3 == 1).then(|| "era".into()),
            max_devices: (f / 27 % 3 == 2).then_some(5),
            call_link_state: (ex > 0).then(|| L {
                encrypted_name: (lm & 1 == 0).then(|| name.clone()),
                restrictions: (lm & 2 == 0).then_some((ex % 2) as i32),
                revoked: (lm & 4 == 0).then_some(ex % 3 == 0),
                expiration_unix_timestamp: (lm & 8 == 0).then_some(EXPIRATIONS[ex]),
                ..Default::default()
            }),
            ..Default::default()
        };
        let resolver = sfu::ObfuscatedResolver::new(Arc::new(Resolver), key, None);
        let r = PeekInfo::deobfuscate_proto(proto, &resolver);
        let fine = f % 3 != 2 && f / 3 % 3 != 2 && (ex == 0 || lm == 0);
        ensure!(r.is_ok() == fine, "proto with devices {f} and link fields {lm} is {:?}", r.as_ref().err());
        let Ok(r) = r else { return Ok(false) };
        ensure!(r.devices.len() as u64 == 1 + f % 3 && r.pending_devices.len() as u64 == 1 + f / 3 % 3, "peek {r:?}");
        ensure!(r.devices[0].demux_id == 48 && r.devices[0].user_id.is_none(), "peek {r:?}");
        ensure!(r.devices.get(1).is_none_or(|d| d.demux_id == 16 && d.user_id == Some(b"A".to_vec())), "peek {r:?}");
        ensure!(r.creator == (f / 9 % 3 == 1).then(|| b"X".to_vec()), "creator {:?}", r.creator);
        match (&r.call_link_state, key, ex > 0) {
            (None, _, false) | (None, None, _) => {}
            (Some(s), Some(k), true) => {
                let want = StateCase {
                    body: json!(null),
                    name: "nm".into(),
                    restrictions: if ex % 2 == 0 { CallLinkRestrictions::None } else { CallLinkRestrictions::AdminApproval },
                    revoked: ex % 3 == 0,
                    expiration: EXPIRATIONS[ex],
                    epoch: None,
                };
                check_state(s, &want, k.as_slice())?
            }
            (s, k, l) => return Err(format!("link state {s:?} for key {k:?}, sent {l}")),
        }
        Ok(true)
    });

    // join
    let good = json!({"demuxId": 4_294_967_280u32, "ips": ["1.2.3.4", "::1"], "port": 10000, "portTcp": 80, "portTls": 443, "hostname": "h", "iceUfrag": "u", "icePwd": "p",
        "dhePublicKey": hex::encode([7u8; 32]), "callCreator": "knownA", "conferenceId": "e", "clientStatus": "ACTIVE"});
    let run_join = |key: Option<CallLinkRootKey>, room: Option<&str>, pass: bool, answer: Option<http::Response>| -> Result<Option<Result<sfu::JoinResponse, u16>>, String> {
        let w = Wire::default();
        let out: Got<sfu::JoinResponse> = got();
        let o = out.clone();
        sfu::join(&w, ROUTES[1], room.map(Into::into), key, "secret".into(), pass.then_some(&b"pass"[..]), "uf\"rag", "pwd", &[1, 0xab], &[0xff, 0], Arc::new(Resolver), Box::new(move |r| o.lock().unwrap().push(r.map_err(|s| s.code))));
        if key.is_some_and(|k| !k.is_valid()) {
            ensure!(only(&out)?.err() == Some(704) && w.sent.lock().unwrap().is_empty(), "joined a link that was not created");
            return Ok(None);
        }
        let (r, cb) = w.take()?;
        ensure!(out.lock().unwrap().is_empty(), "a result before the answer");
        ensure!(r.method == http::Method::Put && r.url == format!("{}/v2/conference/participants", ROUTES[0]), "join is {r:?}");
        let want = headers_for(key.as_ref(), room, "secret", true);
        ensure!(r.headers == want, "join has headers {:?}, expected {want:?}", r.headers);
        let mut want = json!({"iceUfrag": "uf\"rag", "icePwd": "pwd", "dhePublicKey": "01ab", "hkdfExtraInfo": "ff00"});
        if pass {
            want["adminPasskey"] = b64(b"pass").into();
        }
        let b: serde_json::Value = serde_json::from_slice(&r.body.unwrap_or_default()).map_err(|e| e.to_string())?;
        ensure!(b == want, "join sends {b}, expected {want}");
        cb(answer);
        Ok(Some(only(&out)?))
    };
    let ips: [&[&str]; 4] = [&[], &["1.2.3.4"], &["1.2.3.4", "::1"], &["2001:db8::1", "10.0.0.1", "10.0.0.2"]];
    c.enumerate("joins", 4 * 2 * 3 * 3 * 5 * 3 * 2, |i| {
        let (key, pass, ip, tls, st, creator, host) = (i % 4, i / 4 % 2 == 1, &ips[(i / 8 % 4) as usize], i / 32 % 3, i / 96 % 5, i / 480 % 3, i / 720 % 2 == 1);
        let mut b = good.clone();
        b["ips"] = json!(ip);
        match tls {
            0 => { b.as_object_mut().unwrap().remove("portTls"); }
            1 => b["portTls"] = json!(null),
            _ => {}
        }
        let status = ["ACTIVE", "PENDING", "BLOCKED", "active", "SOMETHING"][st as usize];
        b["clientStatus"] = status.into();
        match creator {
            0 => { b.as_object_mut().unwrap().remove("callCreator"); }
            1 => b["callCreator"] = "stranger".into(),
            _ => {}
        }
        if !host {
            b.as_object_mut().unwrap().remove("hostname");
        }
        let key = [None, Some(keys()[0]), Some(keys()[1]), Some(keys()[2])][key as usize];
        let Some(r) = run_join(key, (i % 3 != 0).then_some("room"), pass, resp(200 + (i % 100) as u16, b.to_string().as_bytes()))? else { return Ok(false) };
        let j = r.map_err(|e| format!("join answered with {b} fails with {e}"))?;
        let addrs = |p: u16| -> Vec<std::net::SocketAddr> { ip.iter().map(|x| std::net::SocketAddr::new(x.parse().unwrap(), p)).collect() };
        ensure!(j.client_demux_id == 4_294_967_280, "demux id {}", j.client_demux_id);
        ensure!(j.server_udp_addresses == addrs(10000) && j.server_tcp_addresses == addrs(80), "addresses of {b} are {j:?}");
        ensure!(j.server_tls_addresses == if tls == 2 { addrs(443) } else { vec![] }, "TLS addresses of {b} are {j:?}");
        ensure!(j.server_hostname == host.then(|| "h".to_string()), "host name {:?}", j.server_hostname);
        ensure!(j.server_ice_ufrag == "u" && j.server_ice_pwd == "p" && j.server_dhe_pub_key == [7; 32] && j.era_id == "e", "join {j:?}");
        ensure!(j.call_creator == (creator == 2).then(|| b"A".to_vec()), "creator {:?}", j.call_creator);
        let want = match status {
            "ACTIVE" => sfu::ClientStatus::Active,
            "BLOCKED" => sfu::ClientStatus::Blocked,
            _ => sfu::ClientStatus::Pending,
        };
        ensure!(j.client_status == want, "status {status} is taken for {:?}", j.client_status);
        Ok(true)
    });
    let mut bad = bad_bodies(&good);
    for (k, v) in [("port", json!(65536)), ("dhePublicKey", json!("00")), ("dhePublicKey", json!("zz".repeat(32))), ("ips", json!(["1.2.3"])), ("demuxId", json!(1u64 << 32))] {
        let mut b = good.clone();
        b[k] = v;
        bad.push(b.to_string().into_bytes());
    }
    c.enumerate("join_failures", n + 1 + bad.len() as u64, |i| {
        let (answer, want) = if i < n {
            (resp(statuses[i as usize], good.to_string().as_bytes()), Some(statuses[i as usize]))
        } else if i == n {
            (None, Some(602))
        } else {
            let body = &bad[(i - n - 1) as usize];
            let p = serde_json::from_slice::<serde_json::Value>(body).ok();
            let port = |v: &serde_json::Value| v.as_u64().is_some_and(|p| p < 65536);
            let fine = p.is_some_and(|v| {
                v["demuxId"].as_u64().is_some_and(|d| d < 1 << 32)
                    && v["ips"].as_array().is_some_and(|a| a.iter().all(|x| x.as_str().is_some_and(|s| s.parse::<std::net::IpAddr>().is_ok())))
                    && port(&v["port"])
                    && port(&v["portTcp"])
                    && (v["portTls"].is_null() || port(&v["portTls"]))
                    && (v["hostname"].is_null() || v["hostname"].is_string())
                    && ["iceUfrag", "icePwd", "conferenceId", "clientStatus"].iter().all(|k| v[k].is_string())
                    && (v.get("callCreator").is_none() || v["callCreator"].is_string())
                    && v["dhePublicKey"].as_str().is_some_and(|s| hex::decode(s).is_ok_and(|b| b.len() == 32))
            });
            (resp(200, body), (!fine).then_some(702))
        };
        let r = run_join(None, None, false, answer)?.unwrap();
        ensure!(r.as_ref().err().copied() == want, "join failure {i}: {r:?}, expected {want:?}");
        Ok(true)
    });
    c.finish();
}

// ---------------------------------------------------------------------------------------------
// C13

struct Outbox {
    sent: Arc<RealMutex<Vec<(u32, String)>>>,
    /// answered from inside send_request
    sync: Option<Arc<RealMutex<Option<DelegatingClient>>>>,
}
impl http::Delegate for Outbox {
    fn send_request(&self, id: u32, r: http::Request) {
        self.sent.lock().unwrap().push((id, r.url.clone()));
        if let Some(s) = &self.sync {
            let c = s.lock().unwrap().clone();
            if let Some(c) = c {
                c.received_response(id, resp(200, r.url.as_bytes()));
            }
        }
    }
}
fn request(i: u32) -> http::Request {
    http::Request { method: http::Method::Get, url: format!("{i}"), headers: HashMap::new(), body: None }
}

struct Http {
    c: DelegatingClient,
    sent: Arc<RealMutex<Vec<(u32, String)>>>,
    calls: Arc<RealMutex<Vec<(u32, Option<Vec<u8>>)>>>,
    n: u32,
    max: u32,
    /// request number -> id, still unanswered
    open: Vec<(u32, u32)>,
    done: Vec<(u32, u32)>,
    chained: u32,
}
impl Http {
    fn new(max: u32) -> Http {
        let sent = Arc::new(RealMutex::new(vec![]));
        Http { c: DelegatingClient::new(Outbox { sent: sent.clone(), sync: None }), sent, calls: Default::default(), n: 0, max, open: vec![], done: vec![], chained: 0 }
    }
    fn collect(&mut self) -> Result<(), String> {
        for (id, url) in self.sent.lock().unwrap().drain(..) {
            let n: u32 = url.parse().unwrap();
            ensure!(!self.open.iter().any(|o| o.1 == id), "request id {id} is used twice");
            self.open.push((n, id));
        }
        Ok(())
    }
}
impl bfs::System for Http {
    fn actions(&mut self) -> usize {
        // send; send with a callback that sends another; answer, fail, for each open; repeat an old answer; unknown id
        2 + 2 * self.open.len() + self.done.len() + 1
    }
    fn describe(&mut self, i: usize) -> String {
        format!("action {i} with open {:?} done {:?}", self.open, self.done)
    }
    fn apply(&mut self, i: usize) -> Result<(), String> {
        let calls = self.calls.clone();
        let before = calls.lock().unwrap().len();
        let mut expect: Option<(u32, Option<Vec<u8>>)> = None;
        let no = self.open.len();
        if i < 2 {
            if self.n >= self.max {
                return Ok(());
            }
            let n = self.n;
            self.n += 1;
            let chain = i == 1;
            if chain {
                self.chained += 1;
            }
            let c2 = self.c.clone();
            let max = self.max;
            self.c.send_request(
                request(n),
                Box::new(move |r| {
                    calls.lock().unwrap().push((n, r.map(|r| r.body)));
                    if chain {
                        let calls = calls.clone();
                        let m = 100 * max + n;
                        c2.send_request(request(m), Box::new(move |r| calls.lock().unwrap().push((m, r.map(|r| r.body)))));
                    }
                }),
            );
        } else if i < 2 + 2 * no {
            let ok = (i - 2) % 2 == 0;
            let (n, id) = self.open.remove((i - 2) / 2);
            let body = format!("body{n}").into_bytes();
            self.c.received_response(id, if ok { resp(200, &body) } else { None });
            expect = Some((n, ok.then_some(body)));
            self.done.push((n, id));
        } else if i < 2 + 2 * no + self.done.len() {
            let (_, id) = self.done[i - 2 - 2 * no];
            if self.open.iter().any(|o| o.1 == id) {
                return Ok(());
            }
            self.c.received_response(id, resp(200, b"again"));
        } else {
            let id = (0..).find(|id| !self.open.iter().any(|o| o.1 == *id)).unwrap() + 0x4000_0000;
            self.c.received_response(id, resp(200, b"stray"));
        }
        self.collect()?;
        let got: Vec<_> = self.calls.lock().unwrap()[before..].to_vec();
        ensure!(got == expect.clone().into_iter().collect::<Vec<_>>(), "callbacks {got:?}, expected {expect:?}");
        Ok(())
    }
    fn key(&self) -> String {
        let mut o: Vec<u32> = self.open.iter().map(|o| o.0).collect();
        o.sort();
        let mut d: Vec<u32> = self.done.iter().map(|o| o.0).collect();
        d.sort();
        format!("{} {} {o:?} {d:?}", self.n, self.chained)
    }
}

fn http_concurrent(answers: u32, drop_client: bool) {
    let sent = Arc::new(RealMutex::new(vec![]));
    let c = DelegatingClient::new(Outbox { sent: sent.clone(), sync: None });
    let calls = Arc::new(RealMutex::new(vec![]));
    let senders: Vec<_> = (0..2)
        .map(|t| {
            let (c, calls) = (c.clone(), calls.clone());
            thread::spawn(move || {
                for k in 0..2 {
                    let n = t * 10 + k;
                    let calls = calls.clone();
                    c.send_request(request(n), Box::new(move |r| calls.lock().unwrap().push((n, r.map(|r| String::from_utf8(r.body).unwrap())))));
                }
            })
        })
        .collect();
    let responders: Vec<_> = (0..answers)
        .map(|_| {
            let (c, sent) = (c.clone(), sent.clone());
            thread::spawn(move || {
                for _ in 0..3 {
                    let next = { let mut s = sent.lock().unwrap(); if s.is_empty() { None } else { Some(s.remove(0)) } };
                    match next {
                        Some((id, url)) => c.received_response(id, resp(200, url.as_bytes())),
                        None => thread::yield_now(),
                    }
                }
            })
        })
        .collect();
    if drop_client {
        drop(c);
        for h in senders.into_iter().chain(responders) {
            h.join().unwrap();
        }
        return;
    }
    for h in senders.into_iter().chain(responders) {
        h.join().unwrap();
    }
    let rest: Vec<(u32, String)> = sent.lock().unwrap().drain(..).collect();
    for (id, url) in rest.into_iter().rev() {
        c.received_response(id, resp(200, url.as_bytes()));
    }
    let mut got = calls.lock().unwrap().clone();
    got.sort();
    let want: Vec<_> = [0u32, 1, 10, 11].iter().map(|n| (*n, Some(n.to_string()))).collect();
    assert_eq!(got, want, "answers went to the wrong callbacks");
    mc::outcome(format!("{:?}", calls.lock().unwrap().iter().map(|c| c.0).collect::<Vec<_>>()));
}

/// Many requests, up to `open` of them at once, answered in some order.
fn many_requests(n: u32, order: u64, open: u32) -> Result<bool, String> {
    let sent = Arc::new(RealMutex::new(vec![]));
    let c = DelegatingClient::new(Outbox { sent: sent.clone(), sync: None });
    let calls: Arc<RealMutex<Vec<(u32, Option<String>)>>> = Default::default();
    let mut waiting: Vec<(u32, String)> = vec![]; // a long one, answered last
    let mut used = std::collections::HashSet::new();
    let mut k = 0;
    while k < n {
        let batch = open.min(n - k);
        for j in k..k + batch {
            let calls = calls.clone();
            c.send_request(request(j), Box::new(move |r| calls.lock().unwrap().push((j, r.map(|r| String::from_utf8(r.body).unwrap())))));
        }
        let mut out: Vec<(u32, String)> = sent.lock().unwrap().drain(..).collect();
        ensure!(out.len() as u32 == batch, "{} requests of {batch} were made", out.len());
        ensure!(out.iter().enumerate().all(|(j, o)| o.1 == (k + j as u32).to_string()), "requests were made in another order");
        if k == 0 && batch > 1 || k == 0 && n > 1 {
            waiting = vec![out.remove(0)];
        }
        for o in out.iter().chain(if k == 0 { &waiting[..] } else { &[] }) {
            // an id is not used again while its request is open (all of them, if nothing was answered)
            ensure!(o.0 != waiting.first().map_or(o.0 ^ 1, |w| w.0) || waiting[0].1 == o.1, "request {} has the id of the open request {}", o.1, waiting[0].1);
            if open == u32::MAX {
                ensure!(used.insert(o.0), "request id {} is used twice", o.0);
            }
        }
        match order {
            0 => {}
            1 => out.reverse(),
            2 => out.sort_by_key(|o| (o.0 % 17, o.0)),
            _ => out.sort_by_key(|o| o.0.reverse_bits()),
        }
        let before = calls.lock().unwrap().len();
        for (id, url) in &out {
            let fails = url.len() % 3 == 2;
            c.received_response(*id, if fails { None } else { resp(200, url.as_bytes()) });
        }
        let got: Vec<_> = calls.lock().unwrap()[before..].to_vec();
        let want: Vec<_> = out.iter().map(|o| (o.1.parse::<u32>().unwrap(), (o.1.len() % 3 != 2).then(|| o.1.clone()))).collect();
        if got != want {
            let at = got.iter().zip(&want).position(|(g, w)| g != w).unwrap_or(got.len().min(want.len()));
            return Err(format!("of {n} requests, answer {at} went to {:?} instead of {:?}", got.get(at), want.get(at)));
        }
        k += batch;
    }
    for (id, url) in waiting {
        let before = calls.lock().unwrap().len();
        c.received_response(id, resp(200, url.as_bytes()));
        let got = calls.lock().unwrap()[before..].to_vec();
        ensure!(got == [(0, Some(url))], "the first request's answer, after {n} others, went to {got:?}");
    }
    Ok(n > 1)
}

fn http_sync() {
    let slot = Arc::new(RealMutex::new(None));
    let sent = Arc::new(RealMutex::new(vec![]));
    let c = DelegatingClient::new(Outbox { sent, sync: Some(slot.clone()) });
    *slot.lock().unwrap() = Some(c.clone());
    let calls = Arc::new(RealMutex::new(vec![]));
    let hs: Vec<_> = (0..2)
        .map(|n| {
            let (c, calls) = (c.clone(), calls.clone());
            thread::spawn(move || {
                let calls2 = calls.clone();
                c.send_request(request(n), Box::new(move |r| calls2.lock().unwrap().push((n, r.map(|r| String::from_utf8(r.body).unwrap())))));
                assert!(calls.lock().unwrap().iter().any(|c| c.0 == n), "an answer given at once was lost");
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    *slot.lock().unwrap() = None;
    let got = calls.lock().unwrap().clone();
    assert!(got.len() == 2 && got.iter().all(|(n, r)| r.as_deref() == Some(n.to_string().as_str())), "answers {got:?}");
    mc::outcome(format!("{got:?}"));
}

/// What a status means, and what of an answer with it is read.
fn http_status(code: u16) -> Result<bool, String> {
    use ringrtc::lite::http::{Response, ResponseStatus, parse_json_response};
    let s = ResponseStatus::from(code);
    let (good, bad) = ((200..300).contains(&code), (400..800).contains(&code));
    ensure!(s.code == code && s.to_string() == code.to_string(), "status {code} became {} ({s})", s.code);
    ensure!(s.is_success() == good, "status {code}: success {}", s.is_success());
    ensure!(s.is_error() == bad, "status {code}: error {}", s.is_error());
    let class = if (100..800).contains(&code) { code / 100 * 100 } else { 0 };
    ensure!(s.r#type() as u16 == class, "status {code} is of type {:?}", s.r#type());
    for (body, value) in [("7", Some(7u32)), (" 7 ", Some(7)), ("", None), ("7 7", None), ("x", None), ("\"7\"", None), ("-7", None), ("4294967296", None)] {
        let got = parse_json_response::<u32>(Some(&Response { status: s, body: body.into() })).map_err(|s| s.code);
        let want = if good { value.ok_or(702) } else { Err(code) };
        ensure!(got == want, "status {code} with {body:?} is read as {got:?}");
    }
    if code == 0 {
        let got = parse_json_response::<u32>(None).map_err(|s| s.code);
        ensure!(got == Err(602), "no answer is read as {got:?}");
    }
    Ok(good || bad)
}

fn c13() {
    let mut c = Check::new("C13", "model_checking");
    c.rule("States are delegating clients merged by their open and answered requests; every request, answer, failure, repeated and stray answer is applied. Concurrent senders and answering threads are explored over all schedules within the bound.");
    c.assume("Sequentially consistent memory; std's locks are modelled (mcstd).");
    c.bfs("histories", bfs::Limits { depth: 40, max_states: 400_000, max_seconds: pick(40.0, 200.0) }, || Http::new(pick(4, 5)));
    let cfg = |b| mc::Config { bound: b, max_seconds: pick(60, 300), ..Default::default() };
    c.schedules("two_senders_one_responder", &cfg(pick(5, 6)), &|| http_concurrent(1, false));
    c.schedules("two_senders_two_responders", &cfg(pick(4, 5)), &|| http_concurrent(2, false));
    c.schedules("answered_at_once", &cfg(pick(6, 10)), &http_sync);
    c.enumerate("statuses", 1 << 16, |i| http_status(i as u16));
    let counts = [1u32, 2, 3, 10, 31, 32, 33, 64, 65, 127, 129, 255, 256, 257, 1000, 4097, 65535, 65536, 65537, 70_001];
    c.enumerate("many_requests", counts.len() as u64 * 4 * 3, move |i| many_requests(counts[(i / 12) as usize], i / 3 % 4, [1, 7, u32::MAX][(i % 3) as usize]));
    c.finish();
}

// ---------------------------------------------------------------------------------------------
// C14

fn root(n: u64) -> CallLinkRootKey {
    CallLinkRootKey::try_from(&crn(n)[..]).unwrap()
}
fn params(n: u64) -> zkgroup::call_links::CallLinkSecretParams {
    zkgroup::call_links::CallLinkSecretParams::derive_from_root_key(&crn(n))
}
fn user(i: u64) -> [u8; 16] {
    let mut u = [0xa0u8; 16];
    u[0] = i as u8;
    u[15] = (i >> 8) as u8;
    u
}
fn cipher(link: u64, i: u64) -> Vec<u8> {
    bincode::serialize(&params(link).encrypt_uid(libsignal_core::Aci::from_uuid_bytes(user(i)))).unwrap()
}

/// What can be asked of a resolver.
fn asks() -> Vec<(Vec<u8>, Option<Vec<u8>>)> {
    let mut v: Vec<_> = (0..3).map(|i| (cipher(1, i), Some(user(i).to_vec()))).collect();
    v.push((cipher(2, 0), None)); // for another call
    let mut bad = cipher(1, 0);
    *bad.last_mut().unwrap() ^= 1;
    v.push((bad, None));
    v.push((cipher(1, 0)[..20].to_vec(), None));
    v.push((vec![], None));
    v
}

struct Members {
    r: CallLinkMemberResolver,
    asks: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    hist: Vec<usize>,
    filled: u64,
    max_fill: u64,
}
impl bfs::System for Members {
    fn actions(&mut self) -> usize {
        self.asks.len() * 2 + 3 + (self.filled < self.max_fill) as usize
    }
    fn describe(&mut self, i: usize) -> String {
        format!("ask {i}")
    }
    fn apply(&mut self, i: usize) -> Result<(), String> {
        let n = self.asks.len();
        if i < 2 * n {
            let (c, want) = &self.asks[i / 2];
            let got = if i % 2 == 0 { self.r.resolve(&hex::encode(c)) } else { self.r.resolve_bytes(c) };
            ensure!(got == *want, "{} resolves to {got:02x?}, expected {want:02x?}", hex::encode(c));
        } else if i == 2 * n {
            let got = self.r.resolve("xyz");
            ensure!(got.is_none(), "xyz resolves to {got:02x?}");
        } else if i == 2 * n + 1 {
            let h = hex::encode(cipher(1, 1)).to_uppercase();
            let got = self.r.resolve(&h);
            ensure!(got == Some(user(1).to_vec()), "{h} resolves to {got:02x?}");
        } else if i == 2 * n + 2 {
            let h = hex::encode(cipher(1, 2));
            let got = self.r.resolve(&h[..h.len() - 1]);
            ensure!(got.is_none(), "an odd number of digits resolves to {got:02x?}");
        } else {
            // 9 strangers push older entries out of the cache
            for k in 0..9 {
                let u = 1000 + self.filled * 9 + k;
                let got = self.r.resolve(&hex::encode(cipher(1, u)));
                ensure!(got == Some(user(u).to_vec()), "member {u} resolves to {got:02x?}");
            }
            self.filled += 1;
        }
        self.hist.push(i);
        Ok(())
    }
    fn key(&self) -> String {
        // the order of first use since the last fill decides the caches
        format!("{:?}", self.hist)
    }
}

fn c14() {
    let mut c = Check::new("C14", "model_checking");
    c.rule("Every sequence of lookups (members of this call and of others, damaged and malformed ids, upper case, enough strangers to overflow the caches) up to the depth; concurrent lookups over all schedules within the bound; group member maps over every list of up to 3 members.");
    c.assume("zkgroup is replaced by a stand-in with the same interface that keeps its contract (only ciphertexts of the same call decrypt).");
    let d = pick(4, 5);
    c.bfs("histories", bfs::Limits { depth: d, max_states: 3_000_000, max_seconds: pick(60.0, 400.0) }, || Members { r: (&root(1)).into(), asks: asks(), hist: vec![], filled: 0, max_fill: 4 });
    c.enumerate("many_members", 60 * 5, |i| {
        let (n, rot) = (i % 60, i / 60);
        let r: CallLinkMemberResolver = (&root(1)).into();
        for round in 0..3 {
            for k in 0..=n {
                let u = (k * (rot + 1) + round) % (n + 1);
                let got = if (k + round) % 3 == 0 { r.resolve_bytes(&cipher(1, u)) } else { r.resolve(&hex::encode(cipher(1, u))) };
                ensure!(got == Some(user(u).to_vec()), "member {u} of {n} resolves to {got:02x?}");
            }
        }
        Ok(true)
    });
    // an epoch or version does not change who is who
    c.enumerate("key_versions", 16, |i| {
        let k = CallLinkRootKey::try_from(&v1(1, 1, i as u32 * 77)[..]).unwrap();
        let r: CallLinkMemberResolver = (&k).into();
        let got = r.resolve(&hex::encode(cipher(1, i)));
        ensure!(got == Some(user(i).to_vec()), "member {i} resolves to {got:02x?}");
        Ok(true)
    });
    c.schedules("concurrent_lookups", &mc::Config { bound: pick(4, 6), max_seconds: pick(60, 300), ..Default::default() }, &|| {
        let r: Arc<CallLinkMemberResolver> = Arc::new((&root(1)).into());
        let hs: Vec<_> = (0..3u64)
            .map(|t| {
                let r = r.clone();
                thread::spawn(move || {
                    for k in 0..2 {
                        let u = (t + k) % 3;
                        let got = if t == 2 { r.resolve_bytes(&cipher(1, u)) } else { r.resolve(&hex::encode(cipher(1, u))) };
                        assert_eq!(got, Some(user(u).to_vec()), "member {u}");
                        assert_eq!(r.resolve(&hex::encode(cipher(2, u))), None);
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
    });
    // groups: an opaque id is the hash of the member id
    let mut lists: Vec<Vec<u64>> = vec![vec![]];
    let mut last = lists.clone();
    for _ in 0..3 {
        last = last.iter().flat_map(|l| (0..4).map(move |x| [&l[..], &[x]].concat())).collect();
        lists.extend(last.clone());
    }
    c.enumerate("group_members", lists.len() as u64, |i| {
        let l = &lists[i as usize];
        let ms: Vec<GroupMember> = l.iter().map(|m| GroupMember { user_id: user(*m).to_vec(), member_id: vec![*m as u8; 1 + *m as usize * 40] }).collect();
        let map = MemberMap::new(&ms);
        for m in 0..5u64 {
            use sha2::Digest;
            let h = sha2::Sha256::digest(vec![m as u8; 1 + m as usize * 40]);
            let want = l.contains(&m).then(|| user(m).to_vec());
            let got = map.resolve(&hex::encode(h));
            ensure!(got == want, "member {m} of {l:?} resolves to {got:02x?}");
            ensure!(map.resolve_bytes(&h) == want, "member {m} of {l:?} by bytes");
            ensure!(map.resolve(&hex::encode(&h[1..])).is_none() && map.resolve("").is_none(), "a part of an id resolves");
        }
        Ok(!l.is_empty())
    });
    let _ = Duration::ZERO;
    c.finish();
}

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C11" => c11(),
        "C12" => c12(),
        "C13" => c13(),
        "C14" => c14(),
        x => mclib::die(&format!("unknown property {x}")),
    }
}
