//! C10: signaling messages.  C15: endorsements.  C16: locks.  C17: redaction of logs.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
    sync::{Arc, atomic::{AtomicU32 as RealU32, Ordering::SeqCst}},
};

use mclib::{Check, bfs, ensure, pick};
use mcstd::{mc, thread};
use prost::Message as _;
use ringrtc::{
    common::CallMediaType,
    core::{
        call_mutex::CallMutex,
        call_rwlock::CallRwLock,
        endorsements::EndorsementsCache,
        signaling::{Answer, Hangup, HangupType, IceCandidate, Offer},
        util::redact_string,
    },
    protobuf::signaling as proto,
};
use zkgroup::{Timestamp, call_links::CallLinkSecretParams, groups::GroupSendEndorsement};

// ---------------------------------------------------------------------------------------------
// C10

/// A protobuf field by hand: the format is the contract with other clients.
fn field(n: u32, bytes: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    prost::encoding::encode_varint(((n << 3) | 2) as u64, &mut v);
    prost::encoding::encode_varint(bytes.len() as u64, &mut v);
    v.extend(bytes);
    v
}
fn num(n: u32, x: u64) -> Vec<u8> {
    let mut v = vec![];
    prost::encoding::encode_varint((n << 3) as u64, &mut v);
    prost::encoding::encode_varint(x, &mut v);
    v
}

const SDPS: [&str; 8] = [
    "",
    "candidate:1 1 udp 2 1.2.3.4 5 typ host",
    "a=candidate:842163049 1 udp 1677729535 2001:db8::1 46154 typ srflx raddr :: rport 0 generation 0 ufrag abcd network-cost 999",
    "candidate:FAKE 1 tcp 0 127.0.0.1 0 typ host",
    "ü\u{0}\u{10ffff}\n",
    "x",
    "candidate:\r\n",
    "candidate:00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000",
];

/// What other clients require of the candidate that accompanies a removal.
fn parseable_and_useless(sdp: &str) -> bool {
    let sdp = sdp.strip_prefix("a=").unwrap_or(sdp);
    let f: Vec<&str> = sdp.split(' ').collect();
    f.len() >= 8
        && f[0].starts_with("candidate:")
        && f[0].len() > 10
        && f[1] == "1"
        && f[2] == "tcp"
        && f[3].parse::<u32>().is_ok()
        && f[4].parse::<IpAddr>().is_ok_and(|ip| ip.is_loopback())
        && f[5].parse::<u16>().is_ok()
        && f[6] == "typ"
        && f[7] == "host"
        && !sdp.contains("ufrag")
}

fn params(i: u64) -> proto::ConnectionParametersV4 {
    let lists: [&[i32]; 4] = [&[], &[8], &[9, 8], &[40, 46, 8]];
    let codec = |l: &[i32]| l.iter().map(|t| proto::VideoCodec { r#type: Some(*t) }).collect::<Vec<_>>();
    proto::ConnectionParametersV4 {
        public_key: (i & 1 != 0).then(|| vec![7u8; 32]),
        ice_ufrag: (i & 2 != 0).then(|| "uf+/".into()),
        ice_pwd: (i & 4 != 0).then(|| "pwd\u{e9}".into()),
        max_bitrate_bps: [None, Some(0), Some(1), Some(u64::MAX)][(i / 8 % 4) as usize],
        receive_video_codecs: codec(lists[(i / 32 % 4) as usize]),
        encode_only_video_codecs: codec(lists[(i / 128 % 4) as usize]),
        decode_only_video_codecs: codec(lists[(i / 512 % 4) as usize]),
    }
}

fn addresses() -> Vec<IpAddr> {
    let mut v: Vec<IpAddr> = vec![];
    for a in [0u8, 1, 127, 128, 255] {
        for b in [0u8, 1, 255] {
            v.push(Ipv4Addr::new(a, b, 7, b ^ a).into());
        }
    }
    for i in 0..8 {
        for x in [1u16, 0x8000, 0xffff] {
            let mut s = [0u16; 8];
            s[i] = x;
            v.push(Ipv6Addr::from(s).into());
        }
    }
    v.push(Ipv6Addr::UNSPECIFIED.into());
    v.push("::ffff:1.2.3.4".parse().unwrap());
    v.push("2001:db8:1:2:3:4:5:6".parse().unwrap());
    v
}

fn c10() {
    let mut c = Check::new("C10", "exploration");
    c.rule("Round trips over the product of addresses and all 65536 ports, over all presence and value combinations of connection parameters, over all hangup kinds with all device ids up to 2^17 and around every power of two and all type numbers up to 2^17; every byte string of up to 3 bytes, every truncation and every single-byte change of encoded messages decoded without a crash. Non-trivial: a value came back.");
    c.assume("The wire format is that of the prost crate; the field numbers are checked against hand-made encodings.");
    let ips = addresses();
    c.enumerate("removed_candidates", ips.len() as u64 * 65536, |i| {
        let (ip, port) = (ips[(i / 65536) as usize], (i % 65536) as u16);
        let a = SocketAddr::new(ip, port);
        let cand = IceCandidate::from_removed_address(a).map_err(|e| e.to_string())?;
        ensure!(cand.removed_address() == Some(a), "the removal of {a} arrives as {:?}", cand.removed_address());
        if port % 4096 == 0 {
            ensure!(cand.v3_sdp().is_some_and(|s| parseable_and_useless(&s)), "clients that don't know removals get {:?}", cand.v3_sdp());
            let raw: Vec<u8> = match ip { IpAddr::V4(v) => v.octets().to_vec(), IpAddr::V6(v) => v.octets().to_vec() };
            let wire = field(3, &[field(1, &raw), num(2, port as u64)].concat());
            ensure!(IceCandidate::new(wire).removed_address() == Some(a), "a removal of {a} by another client is not understood");
        }
        Ok(true)
    });
    c.enumerate("malformed_removals", 40 * 8, |i| {
        let (len, p) = ((i % 40) as usize, i / 40);
        let port = [None, Some(0u64), Some(1), Some(65535), Some(65536), Some(65537), Some(u32::MAX as u64), Some(1 << 20)][p as usize];
        let ip: Vec<u8> = (1..=len as u8).collect();
        let wire = field(3, &[field(1, &ip), port.map(|p| num(2, p)).unwrap_or_default()].concat());
        let got = IceCandidate::new(wire).removed_address();
        let want = match (len, port) {
            (4, Some(p)) if p < 65536 => Some(SocketAddr::new(IpAddr::from(<[u8; 4]>::try_from(&ip[..]).unwrap()), p as u16)),
            (16, Some(p)) if p < 65536 => Some(SocketAddr::new(IpAddr::from(<[u8; 16]>::try_from(&ip[..]).unwrap()), p as u16)),
            _ => None,
        };
        ensure!(got == want, "an address of {len} bytes with port {port:?} is read as {got:?}");
        Ok(want.is_some())
    });
    c.enumerate("added_candidates", 8 * 3, |i| {
        let sdp = SDPS[(i % 8) as usize];
        let cand = IceCandidate::from_v3_sdp(sdp.into()).map_err(|e| e.to_string())?;
        ensure!(cand.v3_sdp().as_deref() == Some(sdp), "candidate {sdp:?} arrives as {:?}", cand.v3_sdp());
        ensure!(cand.removed_address().is_none(), "an added candidate removes {:?}", cand.removed_address());
        let wire = field(2, &field(1, sdp.as_bytes()));
        // unknown fields of later versions before, after, or none
        let wire = match i / 8 { 0 => wire, 1 => [field(9, b"later"), wire].concat(), _ => [wire, num(77, 5)].concat() };
        let c2 = IceCandidate::new(wire.clone());
        ensure!(c2.v3_sdp().as_deref() == Some(sdp) && c2.opaque == wire, "candidate {sdp:?} of another client is not understood");
        Ok(true)
    });
    c.enumerate("offers_and_answers", 2048 * 2 * 3, |i| {
        let (p, t, ext) = (params(i % 2048), i / 2048 % 2, i / 4096);
        let typ = if t == 0 { CallMediaType::Audio } else { CallMediaType::Video };
        let o = Offer::from_v4(typ, p.clone()).map_err(|e| e.to_string())?;
        let extra = match ext { 0 => vec![], 1 => field(15, b"v5"), _ => num(3, 9) };
        let wire = [o.opaque.clone(), extra.clone()].concat();
        let o2 = Offer::new(typ, wire.clone()).map_err(|e| e.to_string())?;
        ensure!(o2.to_v4() == Some(p.clone()) && o2.call_media_type == typ && o2.opaque == wire, "an offer of {p:?} arrives as {:?}", o2.to_v4());
        ensure!(o.opaque == field(4, &p.encode_to_vec()), "an offer is encoded as {:02x?}", o.opaque);
        let a = Answer::from_v4(p.clone()).map_err(|e| e.to_string())?;
        let wire = [extra, a.opaque.clone()].concat();
        let a2 = Answer::new(wire.clone()).map_err(|e| e.to_string())?;
        ensure!(a2.to_v4() == Some(p.clone()) && a2.opaque == wire, "an answer of {p:?} arrives as {:?}", a2.to_v4());
        ensure!(a.opaque == field(4, &p.encode_to_vec()), "an answer is encoded as {:02x?}", a.opaque);
        Ok(true)
    });
    // hand-made parameters
    c.enumerate("parameters_of_other_clients", 256, |i| {
        let on = |b: u64| i >> b & 1 == 1;
        let mut w = vec![];
        if on(0) { w.extend(field(1, &[9; 32])) }
        if on(1) { w.extend(field(2, b"uf")) }
        if on(2) { w.extend(field(3, b"pw")) }
        if on(3) { w.extend(field(4, &num(1, 9))); w.extend(field(4, &num(1, 8))) }
        if on(4) { w.extend(num(5, 1 << 40)) }
        if on(5) { w.extend(field(6, &num(1, 8))) }
        if on(6) { w.extend(field(7, &num(1, 40))) }
        let msg = [if on(7) { field(2, b"old sdp") } else { vec![] }, field(4, &w)].concat();
        let o = Offer::new(CallMediaType::Audio, msg.clone()).map_err(|e| e.to_string())?.to_v4().ok_or("no parameters")?;
        let a = Answer::new(msg).map_err(|e| e.to_string())?.to_v4().ok_or("no parameters")?;
        ensure!(o == a, "offer and answer differ");
        ensure!(o.public_key == on(0).then(|| vec![9; 32]) && o.ice_ufrag == on(1).then(|| "uf".into()) && o.ice_pwd == on(2).then(|| "pw".into()), "parameters {o:?}");
        let types = |l: &[proto::VideoCodec]| l.iter().filter_map(|c| c.r#type).collect::<Vec<_>>();
        ensure!(types(&o.receive_video_codecs) == if on(3) { vec![9, 8] } else { vec![] }, "codecs {o:?}");
        ensure!(types(&o.encode_only_video_codecs) == if on(5) { vec![8] } else { vec![] }, "codecs {o:?}");
        ensure!(types(&o.decode_only_video_codecs) == if on(6) { vec![40] } else { vec![] }, "codecs {o:?}");
        ensure!(o.max_bitrate_bps == on(4).then_some(1 << 40), "bitrate {o:?}");
        Ok(i > 0)
    });
    // texts and lists of any length
    let mut sizes: Vec<usize> = (0..70).collect();
    for s in [127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 1500, 2048, 4096, 16383, 16384, 65535, 65536, 1 << 20] {
        sizes.extend([s, s + 1]);
    }
    c.enumerate("sizes", sizes.len() as u64 * 3, |i| {
        let (n, kind) = (sizes[(i / 3) as usize], i % 3);
        let text: String = ["a", "candidate:1 1 udp 1 1.2.3.4 5 typ host \r\n ", "\u{fc}\u{20ac}"][kind as usize].chars().cycle().take(n).collect();
        let cand = IceCandidate::from_v3_sdp(text.clone()).map_err(|e| e.to_string())?;
        ensure!(cand.v3_sdp().as_ref() == Some(&text) && cand.removed_address().is_none(), "a candidate of {n} characters arrives with {:?}", cand.v3_sdp().map(|s| s.len()));
        ensure!(IceCandidate::new(field(2, &field(1, text.as_bytes()))).v3_sdp().as_ref() == Some(&text), "a candidate of {n} characters of another client is not understood");
        let codecs = |n: usize, k: usize| -> Vec<proto::VideoCodec> { (0..n).map(|j| proto::VideoCodec { r#type: Some([8, 9, 40][(j + k) % 3]), ..Default::default() }).collect() };
        let list = n.min(5000);
        let p = proto::ConnectionParametersV4 {
            public_key: Some((0..n).map(|j| (j * 3) as u8).collect()),
            ice_ufrag: Some(text.clone()),
            ice_pwd: Some(text.chars().rev().collect()),
            receive_video_codecs: codecs(list, 0),
            encode_only_video_codecs: codecs(list, 1),
            decode_only_video_codecs: codecs(list / 2, 2),
            max_bitrate_bps: Some(u64::MAX - n as u64),
            ..Default::default()
        };
        let o = Offer::from_v4(CallMediaType::Video, p.clone()).map_err(|e| e.to_string())?;
        let a = Answer::from_v4(p.clone()).map_err(|e| e.to_string())?;
        ensure!(o.to_v4() == Some(p.clone()) && a.to_v4() == Some(p.clone()), "parameters of {n} characters and {list} codecs do not come back");
        ensure!(o.opaque == field(4, &p.encode_to_vec()) && a.opaque == o.opaque, "parameters of {n} characters are encoded otherwise");
        let o2 = Offer::new(CallMediaType::Audio, o.opaque.clone()).map_err(|e| e.to_string())?;
        let a2 = Answer::new(o.opaque.clone()).map_err(|e| e.to_string())?;
        ensure!(o2.to_v4() == Some(p.clone()) && a2.to_v4() == Some(p) && o2.opaque == o.opaque && a2.opaque == o.opaque, "parameters of {n} characters and {list} codecs arrive otherwise");
        Ok(n > 0)
    });
    // bytes of any origin
    let mut seeds: Vec<Vec<u8>> = vec![];
    for i in [0, 7, 2047, 1023, 0x155] {
        seeds.push(Offer::from_v4(CallMediaType::Audio, params(i)).unwrap().opaque);
    }
    seeds.push(IceCandidate::from_v3_sdp(SDPS[2].into()).unwrap().opaque);
    seeds.push(IceCandidate::from_removed_address("[2001:db8::9]:77".parse().unwrap()).unwrap().opaque);
    seeds.push(IceCandidate::from_removed_address("1.2.3.4:77".parse().unwrap()).unwrap().opaque);
    let decode = |b: &[u8]| -> bool {
        let o = Offer::new(CallMediaType::Video, b.to_vec());
        let a = Answer::new(b.to_vec());
        let i = IceCandidate::new(b.to_vec());
        let r = o.as_ref().is_ok_and(|o| o.to_v4().is_some()) | a.as_ref().is_ok_and(|a| a.to_v4().is_some()) | i.v3_sdp().is_some() | i.removed_address().is_some();
        assert_eq!(o.is_ok(), a.is_ok(), "offer and answer have one format");
        if let (Ok(o), Ok(a)) = (o, a) {
            assert!(o.opaque == b && a.opaque == b, "a message is passed on unchanged");
            let _ = (o.to_info_string(), a.to_info_string(), i.to_info_string());
        }
        r
    };
    c.enumerate("short_strings", 1 + 256 + 65536 + 256 * 65536 / pick(16, 1), |i| {
        let b: Vec<u8> = match i {
            0 => vec![],
            1..257 => vec![(i - 1) as u8],
            257..65793 => ((i - 257) as u16).to_be_bytes().to_vec(),
            _ => ((i - 65793) as u32 * pick(16, 1)).to_be_bytes()[1..].to_vec(),
        };
        Ok(decode(&b) | b.is_empty())
    });
    let total: u64 = seeds.iter().map(|s| s.len() as u64 * 257).sum();
    c.enumerate("damaged_messages", total, |mut i| {
        for s in &seeds {
            let n = s.len() as u64 * 257;
            if i < n {
                let (pos, v) = ((i / 257) as usize, i % 257);
                let mut b = s.clone();
                if v == 256 { b.truncate(pos) } else { b[pos] = v as u8 }
                return Ok(decode(&b));
            }
            i -= n;
        }
        unreachable!()
    });
    // hangups
    let mut ids: Vec<u32> = (0..1 << 17).collect();
    for p in 17..32 {
        ids.extend([(1u32 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    ids.push(u32::MAX);
    c.enumerate("hangups", ids.len() as u64, |i| {
        let d = ids[i as usize];
        for h in [Hangup::Normal, Hangup::AcceptedOnAnotherDevice(d), Hangup::DeclinedOnAnotherDevice(d), Hangup::BusyOnAnotherDevice(d), Hangup::NeedPermission(Some(d))] {
            let (t, dev) = h.to_type_and_device_id();
            let want = match h {
                Hangup::Normal => (0, None),
                Hangup::AcceptedOnAnotherDevice(d) => (1, Some(d)),
                Hangup::DeclinedOnAnotherDevice(d) => (2, Some(d)),
                Hangup::BusyOnAnotherDevice(d) => (3, Some(d)),
                Hangup::NeedPermission(d) => (4, d),
            };
            ensure!((t as i32, dev) == want, "{h:?} is sent as {t:?} {dev:?}");
            let back = HangupType::from_i32(t as i32).ok_or("unknown type")?;
            ensure!(Hangup::from_type_and_device_id(back, dev.unwrap_or(d)) == h, "{h:?} does not come back");
        }
        ensure!(Hangup::NeedPermission(None).to_type_and_device_id() == (HangupType::NeedPermission, None), "need permission");
        for n in [d as i32, (d as i32).wrapping_neg()] {
            ensure!(HangupType::from_i32(n).map(|t| t as i32) == (0..5).contains(&n).then_some(n), "type {n} is {:?}", HangupType::from_i32(n));
        }
        Ok(true)
    });
    c.finish();
}

// ---------------------------------------------------------------------------------------------
// C15

const EXP: [u64; 3] = [1_000, 2_000, 3_000];
const USERS: u64 = 3;
fn uid(u: u64) -> Vec<u8> {
    vec![u as u8; 17]
}
fn endorsement(e: usize, u: u64, ver: u64) -> GroupSendEndorsement {
    bincode::deserialize(&((e as u64 + 1) * 1_000_000 + u * 1000 + ver + 1).to_le_bytes()).unwrap()
}
#[derive(Clone, Default, Debug, PartialEq)]
struct Set {
    members: BTreeMap<u64, u64>,
    updated: u64,
}
struct Endorsements {
    c: EndorsementsCache,
    key: CallLinkSecretParams,
    now: u64,
    sets: BTreeMap<usize, Set>,
    bad: BTreeSet<usize>,
    all_bad: bool,
    shared: Option<u64>,
    ver: u64,
}
impl Endorsements {
    fn new() -> Self {
        let key = CallLinkSecretParams::derive_from_root_key(&[1; 16]);
        Self { c: EndorsementsCache::new(key), key, now: 0, sets: Default::default(), bad: Default::default(), all_bad: false, shared: None, ver: 0 }
    }
    fn valid(&self, e: usize) -> bool {
        self.sets.contains_key(&e) && !self.bad.contains(&e) && !self.all_bad
    }
    fn observe(&self) -> Result<(), String> {
        let ts = |e: usize| Timestamp::from_epoch_seconds(EXP[e]);
        for e in 0..3 {
            let want = self.valid(e).then(|| self.sets[&e].members.clone());
            let to_map = |m: &HashMap<Vec<u8>, GroupSendEndorsement>| -> BTreeMap<Vec<u8>, GroupSendEndorsement> { m.iter().map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>().into_iter().collect() };
            let got = self.c.get_endorsements_for_expiration(ts(e)).map(|(t, m)| (t, format!("{:?}", to_map(m))));
            let w = want.as_ref().map(|m| (ts(e), format!("{:?}", m.iter().map(|(u, v)| (uid(*u), endorsement(e, *u, *v))).collect::<BTreeMap<_, _>>())));
            ensure!(got == w, "endorsements of {}: {got:?}, expected {w:?}", EXP[e]);
            for mask in 0..1u64 << (USERS + 1) {
                let ids: Vec<u64> = (0..=USERS).filter(|u| mask >> u & 1 == 1).collect();
                let list: Vec<Vec<u8>> = ids.iter().map(|u| uid(*u)).collect();
                let known = want.as_ref().filter(|m| ids.iter().all(|u| m.contains_key(u)));
                let token = self.c.get_token_for(ts(e), list.clone());
                let want_token = known.map(|m| GroupSendEndorsement::combine(ids.iter().map(|u| endorsement(e, *u, m[u]))).to_token(self.key).into_full_token(ts(e)));
                ensure!(token == want_token, "token of {} for {ids:?}: {token:?}, expected {want_token:?}", EXP[e]);
                let some = |t: Timestamp, m: HashMap<&Vec<u8>, &GroupSendEndorsement>| (t, m.into_iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect::<BTreeMap<_, _>>());
                let got = self.c.get_endorsements_for_users(Some(ts(e)), list.iter()).map(|(t, m)| some(t, m));
                let w = known.map(|m| (ts(e), ids.iter().map(|u| (uid(*u), format!("{:?}", endorsement(e, *u, m[u])))).collect::<BTreeMap<_, _>>()));
                ensure!(got == w, "endorsements of {} for {ids:?}: {got:?}, expected {w:?}", EXP[e]);
                // without an epoch: the latest set, or nothing if that one is not valid
                if self.sets.keys().max() == Some(&e) {
                    let got = self.c.get_endorsements_for_users(None, list.iter()).map(|(t, m)| some(t, m));
                    ensure!(got == w, "latest endorsements for {ids:?}: {got:?}, expected {w:?}");
                }
            }
        }
        if self.sets.is_empty() {
            ensure!(self.c.get_endorsements_for_users(None, [].iter()).is_none(), "an empty cache has endorsements");
        }
        let want = self.sets.iter().last().is_some_and(|(e, s)| self.valid(*e) && self.shared.is_none_or(|t| t < s.updated));
        ensure!(self.c.has_valid_update() == want, "an update is {}announced", if want { "not " } else { "" });
        Ok(())
    }
}
impl bfs::System for Endorsements {
    fn actions(&mut self) -> usize {
        3 * 3 + 4 + 1 + 4
    }
    fn describe(&mut self, i: usize) -> String {
        match i {
            0..9 => format!("insert for {} kind {}", EXP[i / 3], i % 3),
            9..12 => format!("{} is invalid", EXP[i - 9]),
            12 => "an invalid response".into(),
            13 => "get latest".into(),
            _ => format!("clear expired at {}", [999, 1000, 2500, 3000][i - 14]),
        }
    }
    fn apply(&mut self, i: usize) -> Result<(), String> {
        self.now += 1000;
        mc::set_free_clock(self.now);
        match i {
            0..9 => {
                let e = i / 3;
                self.ver += 1;
                let users: &[u64] = [&[0, 1][..], &[1, 2], &[]][i % 3];
                let m: HashMap<_, _> = users.iter().map(|u| (uid(*u), endorsement(e, *u, self.ver))).collect();
                self.c.insert(Timestamp::from_epoch_seconds(EXP[e]), m);
                let s = self.sets.entry(e).or_default();
                s.updated = self.now;
                for u in users {
                    s.members.insert(*u, self.ver);
                }
                self.bad.remove(&e);
                self.all_bad = false;
            }
            9..12 => {
                self.c.set_invalid(Some(Timestamp::from_epoch_seconds(EXP[i - 9])), "bad".into());
                self.bad.insert(i - 9);
            }
            12 => {
                self.c.set_invalid(None, "bad".into());
                self.all_bad = true;
            }
            13 => {
                let last = self.sets.keys().last().copied().filter(|e| self.valid(*e));
                let got = self.c.get_latest().map(|(t, m)| (t, m.iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect::<BTreeMap<_, _>>()));
                let want = last.map(|e| (Timestamp::from_epoch_seconds(EXP[e]), self.sets[&e].members.iter().map(|(u, v)| (uid(*u), format!("{:?}", endorsement(e, *u, *v)))).collect::<BTreeMap<_, _>>()));
                ensure!(got == want, "latest endorsements {got:?}, expected {want:?}");
                if last.is_some() {
                    self.shared = Some(self.now);
                }
            }
            _ => {
                let now = [999, 1000, 2500, 3000][i - 14];
                self.c.clear_expired(mcstd::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(now));
                self.sets.retain(|e, _| EXP[*e] > now);
                // a mark on a set that is not there has nothing to say about a later one
                self.bad.retain(|e| EXP[*e] > now || !self.sets.contains_key(e));
            }
        }
        // marks on absent sets are dropped when the set comes; they are invisible until then
        let keep: BTreeSet<usize> = self.bad.iter().copied().filter(|e| self.sets.contains_key(e)).collect();
        self.bad = keep;
        mc::set_free_clock(self.now + 1);
        self.observe()
    }
    fn key(&self) -> String {
        // order of times and identity of versions, not their values
        let mut times: Vec<u64> = self.sets.values().map(|s| s.updated).chain(self.shared).collect();
        times.sort();
        times.dedup();
        let rank = |t: u64| times.iter().position(|x| *x == t).unwrap();
        let mut vers: Vec<u64> = self.sets.values().flat_map(|s| s.members.values().copied()).collect();
        vers.sort();
        vers.dedup();
        let s: Vec<_> = self.sets.iter().map(|(e, s)| (*e, rank(s.updated), s.members.iter().map(|(u, v)| (*u, vers.binary_search(v).unwrap())).collect::<Vec<_>>())).collect();
        format!("{s:?} {:?} {} {:?}", self.bad, self.all_bad, self.shared.map(rank))
    }
}

fn c15() {
    let mut c = Check::new("C15", "model_checking");
    c.rule("States are endorsement caches for three expirations and three members, merged by the reference model (what is stored, what is marked, the order of update times); every insertion, invalidation, hand-over and clean-up is applied in every state and every query is compared with the model, for every set of recipients.");
    c.assume("zkgroup is replaced by a stand-in; the clock advances between operations.");
    c.bfs("histories", bfs::Limits { depth: pick(6, 9), max_states: pick(300_000, 3_000_000), max_seconds: pick(60.0, 500.0) }, Endorsements::new);
    c.finish();
}

// ---------------------------------------------------------------------------------------------
// C16

fn c16() {
    let mut c = Check::new("C16", "model_checking");
    c.rule("Every interleaving of threads that lock, update, read and panic while holding the lock, within the deviation bound.");
    c.assume("Sequentially consistent memory; std's locks are modelled (mcstd), including poisoning.");
    let cfg = |b| mc::Config { bound: b, max_seconds: pick(60, 300), ..Default::default() };
    c.schedules("mutex", &cfg(pick(5, 8)), &|| {
        let m = Arc::new(CallMutex::new((0u32, 0u32), "m"));
        let hs: Vec<_> = (0..3u32)
            .map(|t| {
                let m = m.clone();
                thread::spawn(move || {
                    for _ in 0..2 {
                        let mut g = m.lock().expect("nobody panicked");
                        assert_eq!(g.0, g.1, "two threads are inside");
                        g.0 += 1 + t;
                        thread::yield_now();
                        g.1 += 1 + t;
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        assert_eq!(*m.lock().unwrap(), (12, 12), "an update was lost");
    });
    c.schedules("mutex_panic", &cfg(pick(6, 9)), &|| {
        let m = Arc::new(CallMutex::new(vec![1u32], "m"));
        let bad = { let m = m.clone(); thread::spawn(move || { let mut g = m.lock().unwrap(); g.clear(); panic!("planned"); }) };
        let other = {
            let m = m.clone();
            thread::spawn(move || match m.lock() {
                Ok(g) => { assert_eq!(*g, vec![1], "half-made update is visible"); "before" }
                Err(e) => { assert!(format!("{e}").contains('m'), "error {e}"); "after" }
            })
        };
        let reset = {
            let m = m.clone();
            thread::spawn(move || {
                let ran = RealU32::new(0);
                let g = m.lock_or_reset(|label| { ran.fetch_add(1, SeqCst); assert_eq!(label, "m"); vec![7] });
                let n = ran.load(SeqCst);
                assert!(n <= 1, "reset {n} times");
                assert_eq!(*g, if n == 0 { vec![1] } else { vec![7] }, "half-made update is visible");
                n
            })
        };
        assert!(bad.join().is_err());
        mc::take_thread_panics();
        let o = other.join().unwrap();
        let r = reset.join().unwrap();
        // later users neither panic nor see the half-made update
        match m.lock() {
            Ok(g) => assert_eq!(*g, vec![7], "half-made update is visible"),
            Err(_) => {}
        }
        assert_eq!(*m.lock_or_reset(|_| vec![8]), vec![8]);
        mc::outcome(format!("{o} {r}"));
    });
    c.schedules("rwlock", &cfg(pick(4, 6)), &|| {
        let m = Arc::new(CallRwLock::new((0u32, 0u32), "rw"));
        let inside = Arc::new(RealU32::new(0));
        let ws: Vec<_> = (0..2u32)
            .map(|t| {
                let m = m.clone();
                thread::spawn(move || {
                    let mut g = m.write().expect("nobody panicked");
                    assert_eq!(g.0, g.1, "two writers are inside");
                    g.0 += 1 + t;
                    thread::yield_now();
                    g.1 += 1 + t;
                })
            })
            .collect();
        let rs: Vec<_> = (0..2)
            .map(|_| {
                let (m, inside) = (m.clone(), inside.clone());
                thread::spawn(move || {
                    let g = m.read().expect("nobody panicked");
                    if inside.fetch_add(1, SeqCst) == 1 {
                        mc::cover("two_readers");
                    }
                    assert_eq!(g.0, g.1, "a reader sees half an update");
                    let before = *g;
                    thread::yield_now();
                    assert_eq!(*g, before, "the value changed under a reader");
                    inside.fetch_sub(1, SeqCst);
                })
            })
            .collect();
        for h in ws.into_iter().chain(rs) {
            h.join().unwrap();
        }
        assert_eq!(*m.read().unwrap(), (3, 3), "an update was lost");
    });
    c.schedules("rwlock_panic", &cfg(pick(6, 9)), &|| {
        let m = Arc::new(CallRwLock::new(vec![1u32], "some-label"));
        let reader_panics = mc::choose_bool();
        let bad = {
            let m = m.clone();
            thread::spawn(move || {
                if reader_panics {
                    let _g = m.read().unwrap();
                    panic!("planned");
                } else {
                    let mut g = m.write().unwrap();
                    g.clear();
                    panic!("planned");
                }
            })
        };
        let other = {
            let m = m.clone();
            thread::spawn(move || match m.read() {
                Ok(g) => { assert_eq!(*g, vec![1], "half-made update is visible"); "before" }
                Err(e) => { assert!(format!("{e}").contains("some-label"), "error {e}"); "after" }
            })
        };
        assert!(bad.join().is_err());
        mc::take_thread_panics();
        let o = other.join().unwrap();
        if reader_panics {
            assert_eq!(*m.read().expect("a reader cannot break anything"), vec![1]);
            assert_eq!(*m.write().expect("a reader cannot break anything"), vec![1]);
        } else {
            let (r, w) = (m.read().map(|_| ()), m.write().map(|_| ()));
            for e in [r, w] {
                let e = e.expect_err("a half-made update is handed out");
                assert!(format!("{e}").contains("some-label"), "error {e}");
            }
        }
        mc::outcome(format!("{reader_panics} {o}"));
    });
    c.finish();
}

// ---------------------------------------------------------------------------------------------
// C17

/// The text with all markers taken away.
fn unmarked(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(a) = rest.find("[REDACTED") {
        out.push_str(&rest[..a]);
        match rest[a..].find(']') {
            Some(b) => rest = &rest[a + b + 1..],
            None => { out.push_str(&rest[a..]); rest = ""; }
        }
    }
    out.push_str(rest);
    out
}

const SURROUND: [(&str, &str); 10] = [("", ""), ("host ", " port"), ("[", "]"), ("(", ")"), ("=", ","), ("ip:", ";"), ("\n", "\n"), ("\"", "\""), ("to ", "!"), ("<", ">")];

fn gone(addr: &str, count: u32) -> Result<bool, String> {
    for (i, (a, b)) in SURROUND.iter().enumerate() {
        // "ip:" and "::1" would make "ip:::1", which does not say where the address starts
        if a.ends_with(':') && addr.starts_with(':') {
            continue;
        }
        let one = format!("{a}{addr}{b}");
        let text = match count {
            1 => one,
            2 => format!("{one} {one}"),
            _ => format!("{one}\nmore text {one}\r\n{a}10.9.8.7{b}"),
        };
        let out = redact_string(text.as_str());
        let left = unmarked(&out);
        ensure!(
            !left.bytes().any(|c| c.is_ascii_digit()),
            "{text:?} is logged as {out:?}"
        );
        // hex letters of the address in the places of the address only
        let mut words = left.clone();
        for w in [a, b] {
            words = words.replace(w.trim(), "");
        }
        for w in ["more", "text", "host", "port", "ip", "to"] {
            words = words.replace(w, "");
        }
        ensure!(!words.bytes().any(|c| c.is_ascii_alphanumeric()), "{text:?} is logged as {out:?}");
        if i > 0 && count == 1 {
            ensure!(out.starts_with(a) && out.ends_with(b), "{text:?} lost its surroundings: {out:?}");
        }
    }
    Ok(true)
}

/// Segment texts; each leaves a digit behind if it is not redacted.
fn segment(style: u64, i: u64) -> String {
    match style {
        0 => format!("{:x}", i + 1),
        1 => format!("{:04x}", 0xa100 + i),
        2 => format!("{:03X}", 0x5f0 + i),
        3 => format!("2{i}"),
        _ => format!("{:04x}", i),
    }
}

fn c17() {
    let mut c = Check::new("C17", "exploration");
    c.rule("Every place and length of zero compression of an IPv6 address, in five ways of writing its segments, with and without embedded IPv4, zone or masked last part, in ten surroundings, once and several times in a text; every IPv4 address shape; every text of up to five lines of seven kinds; candidate foundations of every length. Non-trivial: all.");
    c.assume("Release behaviour (compiled without debug assertions; debug builds do not redact by design). IPv4 tails after a compressed part followed by further groups are outside the documented forms.");
    let tails = |last: &str, style: u64| -> Vec<String> {
        let mut v = vec![last.to_string()];
        if style == 0 {
            v.push("x".into());
        }
        v
    };
    // uncompressed, and compressed at every place
    c.enumerate("ipv6", 5 * 9 * 9 * 3, |i| {
        let (style, a, b, count) = (i % 5, (i / 5 % 9) as usize, (i / 45 % 9) as usize, (i / 405 + 1) as u32);
        // a groups before, b after "::"; a + b <= 7; a = 8 means uncompressed
        let all: Vec<String> = (0..8).map(|k| segment(style, k)).collect();
        if a == 8 && b == 0 {
            for last in tails(&all[7], style) {
                let s = format!("{}:{last}", all[..7].join(":"));
                gone(&s, count)?;
            }
            return Ok(true);
        }
        if a + b > 7 {
            return Ok(false);
        }
        let head = all[..a].join(":");
        if b == 0 {
            return gone(&format!("{head}::"), count);
        }
        for last in tails(&all[7], style) {
            let tail = [&all[8 - b..7], &[last]].concat().join(":");
            gone(&format!("{head}::{tail}"), count)?;
        }
        Ok(true)
    });
    // what the standard library prints: every pattern of zero groups
    c.enumerate("ipv6_printed", 256 * 4, |i| {
        let (zeros, style) = (i % 256, i / 256);
        let mut s = [0u16; 8];
        for (k, g) in s.iter_mut().enumerate() {
            if zeros >> k & 1 == 0 {
                *g = [0x10 + k as u16, 0xa1b0 + k as u16, 1, 0xff01][style as usize];
            }
        }
        let a = Ipv6Addr::from(s);
        gone(&a.to_string(), 1)?;
        let text = format!("to {} now", SocketAddr::from((a, 8443)));
        let out = redact_string(text.as_str());
        let left = unmarked(&out).replace("8443", "");
        ensure!(!left.bytes().any(|c| c.is_ascii_digit()), "{text:?} is logged as {out:?}");
        ensure!(left.starts_with("to ") && left.ends_with(" now"), "{text:?} is logged as {out:?}");
        Ok(true)
    });
    c.enumerate("ipv6_zone", 6 * 2 * 3 * 4, |i| {
        let (n, up, z, style) = ((i % 6) as usize, i / 6 % 2, (i / 12 % 3) as usize, i / 36);
        let zone = ["eth0", "1", "wlan12"][z];
        let fe = if up == 1 { "FE80" } else { "fe80" };
        // fe80::7:8%eth0, with up to four groups
        let segs: Vec<String> = (0..n.min(4) as u64).map(|k| segment(style, k)).collect();
        if n == 5 {
            return gone(&format!("{fe}::%{zone}"), 1);
        }
        gone(&format!("{fe}::{}%{zone}", segs.join(":")), 1)
    });
    let v4: Vec<String> = {
        let oct = ["0", "7", "12", "192", "255", "001"];
        let mut v = vec![];
        for a in oct {
            for b in oct {
                for c in oct {
                    for d in ["0", "9", "33", "254", "x"] {
                        v.push(format!("{a}.{b}.{c}.{d}"));
                    }
                }
            }
        }
        v
    };
    c.enumerate("ipv4", v4.len() as u64 * 3, |i| gone(&v4[(i / 3) as usize], (i % 3 + 1) as u32));
    c.enumerate("ipv4_in_ipv6", v4.len() as u64 * 10, |i| {
        let a = &v4[(i / 10) as usize];
        let p = ["::", "::ffff:", "::FFFF:", "::ffff:0:", "64:ff9b::", "2001:db8:122:344::", "2001:db8::", "2001:db8:1::", "::ffff:0000:", "1::"][(i % 10) as usize];
        gone(&format!("{p}{a}"), 1)
    });
    // passwords, foundations, and the lines around them
    let kinds: [(&str, &str); 7] = [
        ("a=ice-pwd:S3cr3tS3cr3tS3cr3t", ""),
        ("  a=ice-pwd:S3cr3t/+ trailing S3cr3t", ""),
        ("a=candidate:842163049 1 udp 167 10.1.2.3 9999 typ host", "udp"),
        ("a=candidate:1 1 udp 167 2001:db8::77 9999 typ srflx raddr 10.1.2.4 rport 1", "srflx"),
        ("m=audio kept", "m=audio kept"),
        ("", ""),
        ("peer 10.1.2.5, [2001:db8:77::5]", "peer "),
    ];
    let n = kinds.len() as u64;
    let lines = pick(5, 6);
    c.enumerate("texts", n.pow(lines) * 2, |i| {
        let nl = if i % 2 == 0 { "\n" } else { "\r\n" };
        let mut k = i / 2;
        let ls: Vec<usize> = (0..lines).map(|_| { let x = (k % n) as usize; k /= n; x }).collect();
        let text = ls.iter().map(|l| kinds[*l].0).collect::<Vec<_>>().join(nl);
        let out = redact_string(text.as_str());
        for secret in ["S3cr3t", "842163049", "10.1", "1.2.", "2001", "db8", "77"] {
            ensure!(!out.contains(secret), "{text:?} is logged as {out:?}");
        }
        ensure!(!out.contains("candidate:1"), "{text:?} is logged as {out:?}");
        let mut rest = &out[..];
        for l in &ls {
            match rest.find(kinds[*l].1) {
                Some(p) => rest = &rest[p + kinds[*l].1.len()..],
                None => return Err(format!("{text:?} lost {:?}: {out:?}", kinds[*l].1)),
            }
        }
        Ok(true)
    });
    c.enumerate("foundations", 24 * 9 * 4, |i| {
        let (len, d, s) = ((i % 24 + 1) as usize, i / 24 % 9 + 1, i / 216);
        let f: String = (0..len).map(|_| d.to_string()).collect();
        let text = [format!("candidate:{f} kept"), format!("a=candidate:{f} kept candidate:{f}"), format!("kept candidate:{f}"), format!("{{kept candidate:{f}}}")][s as usize].clone();
        let out = redact_string(text.as_str());
        ensure!(!unmarked(&out).bytes().any(|c| c.is_ascii_digit()) && out.contains("kept") && out.contains("candidate:"), "{text:?} is logged as {out:?}");
        Ok(true)
    });
    // many of them, and far apart
    let counts: Vec<usize> = (1..=70).chain([100, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000]).collect();
    let fillers = ["", "kept ", "k\u{e9}pt \u{20ac} "];
    c.enumerate("long_texts", counts.len() as u64 * 5 * 3 * 2, |i| {
        let (n, what, fill, far) = (counts[(i / 30) as usize], i % 5, (i / 5 % 3) as usize, i / 15 % 2 == 1);
        let one = |k: usize| match what {
            0 => format!("10.9.8.{}", k % 256),
            1 => format!("2001:db8::{}:77", k % 7 + 1),
            2 => "candidate:842163049".to_string(),
            3 => format!("a=ice-pwd:S3cr3t{k}"),
            _ => ["10.9.8.7", "2001:db8::77", "candidate:842163049", "::ffff:1.2.3.4"][k % 4].to_string(),
        };
        let sep = if what == 3 { "\n" } else if n % 2 == 0 { " " } else { "\n" };
        let gap = if far { fillers[fill.max(1)].repeat(if n > 300 { 50 } else { 70_000 / n / 5 + 1 }) } else { fillers[fill].to_string() };
        let text = (0..n).map(|k| if what == 3 { one(k) + "\n" + &gap } else { gap.clone() + &one(k) }).collect::<Vec<_>>().join(sep);
        let out = redact_string(text.as_str());
        let left = unmarked(&out);
        ensure!(!left.bytes().any(|c| c.is_ascii_digit()) && !left.contains("db8") && !left.contains("cr3t"), "of {n} ({}…) in {} bytes some are logged", one(0), text.len());
        let words = |t: &str| (t.matches("kept").count(), t.matches('\u{e9}').count(), t.matches('\u{20ac}').count());
        ensure!(words(&out) == words(&text), "a text of {} bytes with {n} ({}…) lost some of the rest", text.len(), one(0));
        let marks = out.matches("[REDACTED").count() + out.matches("[ REDACTED").count() + out.matches("candidate:***").count();
        ensure!(marks >= n, "of {n} ({}…) only {marks} are marked", one(0));
        Ok(true)
    });
    // text without anything to hide is untouched
    let words = ["call", "state=Ringing", "id 0x12", "1.2.3", "v4.5", "12:30", "a:b", "ok.", "100%", "candidate", "ice", "[x]", "ünï"];
    let w = words.len() as u64;
    c.enumerate("plain", w.pow(4) * 2, |i| {
        let mut k = i / 2;
        let sep = if i % 2 == 0 { " " } else { "\n" };
        let text = (0..4).map(|_| { let x = (k % w) as usize; k /= w; words[x] }).collect::<Vec<_>>().join(sep);
        let out = redact_string(text.as_str());
        ensure!(out == text, "{text:?} is logged as {out:?}");
        Ok(true)
    });
    c.finish();
}

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C10" => c10(),
        "C15" => c15(),
        "C16" => c16(),
        "C17" => c17(),
        x => mclib::die(&format!("unknown property {x}")),
    }
}
