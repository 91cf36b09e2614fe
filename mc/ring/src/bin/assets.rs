//! C09: the asset manager registers exactly what its manifest allows.
use std::{collections::BTreeMap, path::PathBuf};

use mclib::{Check, bfs, ensure, pick};
use mcstd::{mc, thread};
use ringrtc::{
    common::SemanticVersion,
    core::assets::{AssetError, AssetHandle, AssetManager, AssetManifestEntry, AssetRegistry},
    protobuf::assets::AssetMetadata,
};
use sha2::{Digest, Sha512};

struct Spec {
    group: &'static str,
    version: &'static str,
    parsed: Option<(u16, u16, u16)>,
    content: &'static [u8],
    disabled: bool,
}
const fn e(group: &'static str, version: &'static str, parsed: Option<(u16, u16, u16)>, content: &'static [u8], disabled: bool) -> Spec {
    Spec { group, version, parsed, content, disabled }
}
const MANIFEST: &[Spec] = &[
    e("one", "0.0.9", Some((0, 0, 9)), b"alpha", false),
    e("one", "0.0.10", Some((0, 0, 10)), b"bravo-longer", false),
    e("two", "1.0.0", Some((1, 0, 0)), b"alpha", false),
    e("one", "0.10.0", Some((0, 10, 0)), b"bravo", true),
    e("one", "0.2.0", Some((0, 2, 0)), b"charlie", false),
    e("one", "10.0.0", Some((10, 0, 0)), b"delta", false),
    e("one", "2.0.0", Some((2, 0, 0)), b"echo", false),
    e("one", "2.0", None, b"foxtrot", false),
    e("one", "1.x.3", None, b"golf", false),
    e("two", "1.0.65536", None, b"hotel", false),
    e("two", "1.0.0", Some((1, 0, 0)), b"india", false),
    e("two", "0.9.65535", Some((0, 9, 65535)), b"juliet", false),
    e("three", "0.0.1", Some((0, 0, 1)), b"kilo", true),
    e("three", "0.0.2", Some((0, 0, 2)), b"", false),
];
const GROUPS: &[&str] = &["one", "two", "three", "four", "on", "one ", "", "ONE", "one\0"];

fn manager() -> AssetManager {
    AssetManager::new(
        MANIFEST
            .iter()
            .map(|s| AssetManifestEntry {
                metadata: AssetMetadata {
                    asset_group: s.group.into(),
                    version: s.version.into(),
                    size_bytes: s.content.len() as _,
                    sha512_hash: Sha512::digest(s.content).to_vec(),
                },
                disabled: s.disabled,
            })
            .collect(),
    )
}

fn payloads() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = MANIFEST.iter().map(|s| s.content.to_vec()).collect();
    for c in [&b"alpha"[..], b"bravo-longer"] {
        v.push(c[..c.len() - 1].to_vec());
        v.push([c, b"!"].concat());
        let mut f = c.to_vec();
        f[0] ^= 1;
        v.push(f);
        let mut f = c.to_vec();
        *f.last_mut().unwrap() ^= 0x80;
        v.push(f);
    }
    v.sort();
    v.dedup();
    v
}

type Model = BTreeMap<&'static str, BTreeMap<(u16, u16, u16), &'static [u8]>>;

struct Assets {
    m: AssetManager,
    early: AssetRegistry,
    model: Model,
    payloads: Vec<Vec<u8>>,
    dir: PathBuf,
    files: bool,
}

fn observe(what: &str, options: &dyn Fn(&str) -> Option<Vec<SemanticVersion>>, get: Option<&AssetRegistry>, model: &Model) -> Result<(), String> {
    for g in GROUPS {
        let got = options(g);
        match (model.get(g), got) {
            (None, None) => {}
            (None, Some(v)) => ensure!(v.is_empty(), "{what}: group {g:?} lists {v:?} although nothing was added"),
            (Some(m), None) => return Err(format!("{what}: group {g:?} lists nothing, added were {m:?}")),
            (Some(m), Some(v)) => {
                let want: Vec<_> = m.keys().map(|k| SemanticVersion::new(k.0, k.1, k.2)).collect();
                let rev: Vec<_> = want.iter().rev().copied().collect();
                ensure!(v == want || v == rev, "{what}: group {g:?} lists {v:?}, in semantic version order it is {want:?}");
            }
        }
        if let Some(r) = get {
            let all = MANIFEST.iter().filter_map(|s| s.parsed).chain([(0, 0, 0), (1, 2, 3)]);
            for p in all {
                let a = r.get_asset(g, SemanticVersion::new(p.0, p.1, p.2));
                let want = model.get(g).and_then(|m| m.get(&p)).copied();
                ensure!(
                    a.as_ref().map(|a| &a.content[..]) == want,
                    "{what}: asset {p:?} of group {g:?} is {:?}, expected {want:?}",
                    a.as_ref().map(|a| String::from_utf8_lossy(&a.content).to_string())
                );
            }
        }
    }
    Ok(())
}

impl Assets {
    fn new(dir: PathBuf, files: bool) -> Assets {
        let m = manager();
        let early = m.get_registry();
        Assets { m, early, model: Model::new(), payloads: payloads(), dir, files }
    }
    fn decode(&self, i: usize) -> (&'static str, Option<usize>, bool) {
        let per = self.payloads.len() * (1 + self.files as usize) + self.files as usize;
        let g = GROUPS[i / per];
        let r = i % per;
        if r < self.payloads.len() {
            (g, Some(r), false)
        } else if r < 2 * self.payloads.len() {
            (g, Some(r - self.payloads.len()), true)
        } else {
            (g, None, true)
        }
    }
}

impl bfs::System for Assets {
    fn actions(&mut self) -> usize {
        GROUPS.len() * (self.payloads.len() * (1 + self.files as usize) + self.files as usize)
    }
    fn describe(&mut self, i: usize) -> String {
        let (g, p, f) = self.decode(i);
        format!("add to {g:?} {:?}{}", p.map(|p| String::from_utf8_lossy(&self.payloads[p]).to_string()), if f { " (file)" } else { "" })
    }
    fn apply(&mut self, i: usize) -> Result<(), String> {
        let (g, p, file) = self.decode(i);
        let data: Vec<u8> = p.map(|p| self.payloads[p].clone()).unwrap_or_default();
        let handle = if file {
            let f = match p {
                Some(p) => self.dir.join(format!("asset{p}")),
                None => self.dir.join("missing"),
            };
            AssetHandle::FilePath(f.to_string_lossy().to_string())
        } else {
            AssetHandle::Content(data.clone())
        };
        let r = self.m.add_asset_for_feature(g, handle);
        let known = MANIFEST.iter().any(|s| s.group == g);
        let matching: Vec<&Spec> = if p.is_none() { vec![] } else { MANIFEST.iter().filter(|s| s.group == g && data.starts_with(s.content)).collect() };
        match r {
            Ok(()) => {
                // exactly one of the entries it matches, if several
                let fits: Vec<_> = matching
                    .iter()
                    .filter(|s| !s.disabled && s.parsed.is_some_and(|v| !self.model.get(g).is_some_and(|m| m.contains_key(&v))))
                    .collect();
                ensure!(!fits.is_empty(), "adding {:?} to {g:?} was accepted; no enabled, unregistered manifest entry fits", String::from_utf8_lossy(&data));
                let now = self.m.get_registry();
                let got: Vec<_> = fits
                    .iter()
                    .filter(|s| { let v = s.parsed.unwrap(); now.get_asset(g, SemanticVersion::new(v.0, v.1, v.2)).is_some() })
                    .collect();
                ensure!(got.len() == 1, "adding {:?} to {g:?} was accepted but registered {} versions", String::from_utf8_lossy(&data), got.len());
                self.model.entry(got[0].group).or_default().insert(got[0].parsed.unwrap(), got[0].content);
            }
            Err(err) => {
                let fine = match &err {
                    AssetError::UnsupportedAsset(_) => !known,
                    AssetError::FailedToReadAssetFile(..) => known && p.is_none(),
                    AssetError::DisabledAsset => matching.iter().any(|s| s.disabled),
                    AssetError::InvalidAssetMetadata(_) => matching.iter().any(|s| s.parsed.is_none()),
                    AssetError::InvalidAssetPayload { .. } => known && p.is_some() && matching.is_empty(),
                    AssetError::AssetAlreadyRegistered(v, _) => matching
                        .iter()
                        .any(|s| s.parsed.is_some_and(|w| SemanticVersion::new(w.0, w.1, w.2) == *v && self.model.get(g).is_some_and(|m| m.contains_key(&w)))),
                    _ => false,
                };
                ensure!(fine, "adding {:?} to {g:?} failed with {err:?}, registered are {:?}", String::from_utf8_lossy(&data), self.model);
            }
        }
        observe("manager", &|g| self.m.get_options_for(g), None, &self.model)?;
        observe("registry", &|g| self.early.get_options_for(g), Some(&self.early), &self.model)?;
        let late = self.m.get_registry();
        observe("new registry", &|g| late.get_options_for(g), Some(&late), &self.model)
    }
    fn key(&self) -> String {
        format!("{:?}", self.model)
    }
    fn reached(&self) -> Vec<&'static str> {
        let mut v = vec![];
        if self.model.get("one").is_some_and(|m| m.contains_key(&(0, 0, 9)) && m.contains_key(&(0, 0, 10))) {
            v.push("versions_that_sort_differently_as_text");
        }
        if self.model.len() > 1 {
            v.push("two_groups");
        }
        v
    }
}

/// Readers with their own registry clones while assets are added.
fn concurrent() {
    let mut m = manager();
    let adds: [(&'static str, &'static [u8]); 3] = [("one", b"alpha"), ("one", b"delta"), ("two", b"alpha")];
    let rs: Vec<_> = (0..2).map(|_| m.get_registry()).collect();
    let hs: Vec<_> = rs
        .into_iter()
        .map(|r| {
            thread::spawn(move || {
                let mut before = 0;
                let mut seen = vec![];
                for _ in 0..2 {
                    let mut n = 0;
                    for g in ["one", "two"] {
                        let o = r.get_options_for(g).unwrap_or_default();
                        n += o.len();
                        for v in o {
                            let a = r.get_asset(g, v).expect("a listed asset can be had");
                            let ok = MANIFEST.iter().any(|s| s.group == g && !s.disabled && s.parsed.is_some_and(|p| SemanticVersion::new(p.0, p.1, p.2) == v) && s.content == &a.content[..]);
                            assert!(ok, "asset {v} of {g} has the wrong content");
                        }
                    }
                    assert!(n >= before, "an asset disappeared");
                    before = n;
                    seen.push(n);
                }
                seen
            })
        })
        .collect();
    for (g, c) in adds {
        m.add_asset_for_feature(g, AssetHandle::Content(c.to_vec())).expect("a good asset is accepted");
        let all = m.get_options_for(g).unwrap();
        assert!(!all.is_empty(), "an added asset is not listed");
    }
    let seen: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let r = m.get_registry();
    assert_eq!(r.get_options_for("one").map(|v| v.len()), Some(2));
    assert_eq!(r.get_options_for("two").map(|v| v.len()), Some(1));
    mc::outcome(format!("{seen:?}"));
}

fn c09() {
    let mut c = Check::new("C09", "model_checking");
    c.rule("States are asset managers, merged by what is registered; in every reachable state every payload (each manifest content, truncated, extended, altered) is added to every group name, as bytes and as a file, and manager and registries (obtained before and after) are compared with the reference. Concurrent readers are explored over all schedules within the bound.");
    c.assume("SHA-512 has no collisions. Data after the manifest's size may be present and is dropped.");
    let dir = PathBuf::from(format!("/tmp/mc-assets-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for (i, p) in payloads().iter().enumerate() {
        std::fs::write(dir.join(format!("asset{i}")), p).unwrap();
    }
    let d = dir.clone();
    c.bfs("histories", bfs::Limits::depth(40), move || Assets::new(d.clone(), false));
    let d = dir.clone();
    c.bfs("histories_with_files", bfs::Limits::depth(pick(3, 5)), move || Assets::new(d.clone(), true));
    c.schedules("readers_while_adding", &mc::Config { bound: pick(3, 4), max_seconds: pick(30, 200), ..Default::default() }, &concurrent);
    let _ = std::fs::remove_dir_all(&dir);
    let z = sizes();
    c.enumerate("sizes", z.len() as u64 * 2, move |i| one_size(z[(i / 2) as usize], i % 2 == 1));
    c.enumerate("hashes", 512 + 80, one_hash);
    c.enumerate("many_versions", 10 * 3, |i| many_versions([1u16, 2, 7, 16, 17, 64, 65, 255, 257, 700][(i / 3) as usize], i % 3));
    c.enumerate("dred", 2 * 16 * 101, |i| {
        let (duration, orders, others) = ((i % 101) as u8, i / 101 % 16, i / 101 / 16 == 1);
        dred(duration, orders, others)
    });
    c.finish();
}

/// Contents around the sizes of counters and buffers.
fn sizes() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=20).collect();
    for s in [63, 64, 111, 112, 127, 128, 255, 256, 1 << 12, 1 << 15, 1 << 16, (1 << 16) + 500, 1 << 17, 1 << 20, 1_998_208, 1 << 21] {
        v.extend([s - 1, s, s + 1]);
    }
    v.sort();
    v.dedup();
    v
}
fn single(size: u32, hash: Vec<u8>) -> AssetManager {
    AssetManager::new(vec![AssetManifestEntry { metadata: AssetMetadata { asset_group: "one".into(), version: "1.2.3".into(), size_bytes: size, sha512_hash: hash, ..Default::default() }, disabled: false }])
}
/// One asset of this size: nothing else is taken for it, and it is registered as it is.
fn one_size(n: usize, file: bool) -> Result<bool, String> {
    let good: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    let hash = Sha512::digest(&good).to_vec();
    let dir = PathBuf::from(format!("/tmp/mc-assets-{}-{n}", std::process::id()));
    if file {
        std::fs::create_dir_all(&dir).unwrap();
    }
    let add = |m: &mut AssetManager, d: Vec<u8>| {
        let h = if file {
            std::fs::write(dir.join("a"), &d).unwrap();
            AssetHandle::FilePath(dir.join("a").to_string_lossy().to_string())
        } else {
            AssetHandle::Content(d)
        };
        m.add_asset_for_feature("one", h)
    };
    let mut m = single(n as u32, hash.clone());
    let mut at = vec![0, 1, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), 127, 128, 4095, 4096, 65535, 65536, 1 << 20];
    at.sort();
    at.dedup();
    for p in at.into_iter().filter(|p| *p < n) {
        let mut bad = good.clone();
        bad[p] ^= 0x10;
        ensure!(add(&mut m, bad).is_err(), "an asset of {n} bytes with byte {p} changed was accepted");
    }
    for cut in [1, n / 2, n, n % 65536].into_iter().filter(|c| *c > 0 && *c <= n) {
        ensure!(add(&mut m, good[..n - cut].to_vec()).is_err(), "an asset of {n} bytes was accepted without its last {cut}");
    }
    ensure!(m.get_options_for("one").is_none_or(|v| v.is_empty()), "a refused asset of {n} bytes is listed");
    for more in [0, 1, 65536] {
        let mut m = single(n as u32, hash.clone());
        let mut d = good.clone();
        d.resize(n + more, 0xee);
        add(&mut m, d).map_err(|e| format!("an asset of {n} bytes with {more} after it: {e}"))?;
        let a = m.get_registry().get_asset("one", SemanticVersion::new(1, 2, 3)).ok_or("the asset is not registered")?;
        ensure!(*a.content == good, "an asset of {n} bytes with {more} after it has {} bytes, or others", a.content.len());
    }
    // a manifest that knows only its beginning
    for part in [n / 2, n.saturating_sub(1), n % 65536, n % 256].into_iter().filter(|p| *p < n) {
        let mut m = single(part as u32, hash.clone());
        ensure!(add(&mut m, good.clone()).is_err(), "the hash of {n} bytes was accepted for {part}");
    }
    if file {
        let _ = std::fs::remove_dir_all(&dir);
    }
    Ok(n > 0)
}
/// Only the whole hash will do.
fn one_hash(i: u64) -> Result<bool, String> {
    let good = b"some content";
    let mut h = Sha512::digest(good).to_vec();
    let what = if i < 512 {
        h[(i / 8) as usize] ^= 1 << (i % 8);
        format!("with bit {i} changed")
    } else {
        let l = (i - 512) as usize;
        if l == 64 {
            return Ok(false);
        }
        h.resize(l, 0);
        format!("of {l} bytes")
    };
    let mut m = single(good.len() as u32, h);
    let r = m.add_asset_for_feature("one", AssetHandle::Content(good.to_vec()));
    ensure!(matches!(r, Err(AssetError::InvalidAssetPayload { .. })), "content was accepted for a hash {what}: {r:?}");
    Ok(true)
}
/// Many versions of one group and many groups, added in some order.
fn many_versions(n: u16, order: u64) -> Result<bool, String> {
    // every third entry is of another group
    let of = |k: u16| (if k % 3 == 2 { format!("group{k}") } else { "one".to_string() }, (k / 100, k % 100 / 10, k % 10 * 7));
    let content = |k: u16| format!("content {k:05}").into_bytes();
    let mut m = AssetManager::new(
        (0..n)
            .map(|k| {
                let (g, v) = of(k);
                AssetManifestEntry { metadata: AssetMetadata { asset_group: g, version: format!("{}.{}.{}", v.0, v.1, v.2), size_bytes: content(k).len() as u32, sha512_hash: Sha512::digest(content(k)).to_vec(), ..Default::default() }, disabled: false }
            })
            .collect(),
    );
    let early = m.get_registry();
    for i in 0..n {
        let k = match order { 0 => i, 1 => n - 1 - i, _ => (i as u32 * 11 % n as u32) as u16 };
        let _ = m.add_asset_for_feature(&of(k).0, AssetHandle::Content(content(k)));
    }
    // (11 may divide n: what is left)
    for k in 0..n {
        let _ = m.add_asset_for_feature(&of(k).0, AssetHandle::Content(content(k)));
    }
    let mut want: BTreeMap<String, BTreeMap<(u16, u16, u16), Vec<u8>>> = BTreeMap::new();
    for k in 0..n {
        let (g, v) = of(k);
        want.entry(g).or_default().insert(v, content(k));
    }
    for r in [early, m.get_registry()] {
        for (g, vs) in &want {
            let list: Vec<_> = vs.keys().map(|v| SemanticVersion::new(v.0, v.1, v.2)).collect();
            let got = r.get_options_for(g).unwrap_or_default();
            let rev: Vec<_> = got.iter().rev().copied().collect();
            ensure!(got == list || rev == list, "of {n} entries, group {g} lists {got:?}");
            for (v, c) in vs {
                let a = r.get_asset(g, SemanticVersion::new(v.0, v.1, v.2));
                ensure!(a.as_ref().is_some_and(|a| *a.content == *c), "of {n} entries, asset {v:?} of {g} is {a:?}");
            }
        }
    }
    Ok(n > 1)
}

/// The codecs' weights are those of a registered asset, the same for both, or DRED is off.
fn dred(duration: u8, order: u64, others: bool) -> Result<bool, String> {
    use ringrtc::webrtc::media::{AudioDecoderConfig, AudioEncoderConfig, configure_dred_from_assets};
    let content = |v: u8| vec![v; 10 + v as usize];
    let entry = |group: &str, v: u8| AssetManifestEntry {
        metadata: AssetMetadata { asset_group: group.into(), version: format!("1.{v}.0"), size_bytes: content(v).len() as u32, sha512_hash: Sha512::digest(content(v)).to_vec(), ..Default::default() },
        disabled: false,
    };
    let mut m = AssetManager::new((1..4).map(|v| entry("opus-dred", v)).chain([entry("other", 9)]).collect());
    if others {
        m.add_asset_for_feature("other", AssetHandle::Content(content(9))).map_err(|e| e.to_string())?;
    }
    // every sequence of up to three different versions
    let orders: [&[u8]; 16] = [&[], &[1], &[2], &[3], &[1, 2], &[1, 3], &[2, 1], &[2, 3], &[3, 1], &[3, 2], &[1, 2, 3], &[1, 3, 2], &[2, 1, 3], &[2, 3, 1], &[3, 1, 2], &[3, 2, 1]];
    let added = orders[order as usize];
    for v in added {
        m.add_asset_for_feature("opus-dred", AssetHandle::Content(content(*v))).map_err(|e| e.to_string())?;
    }
    for fec in [false, true] {
        let mut e = AudioEncoderConfig { dred_duration: duration, enable_fec: fec, ..Default::default() };
        let mut d = AudioDecoderConfig::default();
        let was = (format!("{:?}", AudioEncoderConfig { dred_duration: 0, dnn_weights: None, ..e.clone() }), d.complexity);
        configure_dred_from_assets(&m.get_registry(), &mut e, &mut d);
        let what = format!("DRED {duration} with assets {added:?}");
        let on = duration > 0 && !added.is_empty();
        ensure!(e.dred_duration == if on { duration } else { 0 }, "{what}: it is set to {}", e.dred_duration);
        ensure!(e.enable_fec == (fec && !on), "{what}: FEC is {}", e.enable_fec);
        ensure!(e.dnn_weights == d.dnn_weights, "{what}: encoder and decoder differ");
        ensure!(e.dnn_weights.is_some() == on, "{what}: weights {:?}", e.dnn_weights);
        if let Some(w) = &e.dnn_weights {
            ensure!(added.iter().any(|v| content(*v) == **w), "{what}: the weights are {w:?}");
        }
        let is = (format!("{:?}", AudioEncoderConfig { dred_duration: 0, dnn_weights: None, enable_fec: fec, ..e.clone() }), d.complexity);
        ensure!(is == was, "{what}: {was:?} became {is:?}");
    }
    Ok(duration > 0)
}

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C09" => c09(),
        x => mclib::die(&format!("unknown property {x}")),
    }
}
