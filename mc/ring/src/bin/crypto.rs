//! C04 every frame in time decrypts to what was sent; C05 nothing else decrypts;
//! C06 no key material is used twice.
use std::collections::{BTreeMap, HashSet};

use mclib::{Check, bfs, ensure, json, pick};
use ringrtc::core::crypto::{Context, Mac, Secret};

/// Documented limits: how far behind the newest frame / ratchet an old one may be.
const OOO_FRAMES: u64 = 300;
const OOO_RATCHETS: u32 = 5;
const EPOCHS_KEPT: usize = 5;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// encrypt one frame, which the network will deliver
    Frame,
    /// encrypt n frames that are lost
    Lost(u64),
    /// somebody joins: ratchet forward
    Advance(u32),
    /// somebody leaves: new secret
    Reset,
}

fn secret(e: usize) -> Secret {
    let mut s = [0u8; 32];
    s[0] = e as u8 + 1;
    s[31] = 0xa5;
    s
}

#[derive(Clone, Debug)]
enum Item {
    Frame { epoch: usize, ratchet: u32, wire: (u8, u64), cipher: Vec<u8>, mac: Mac, plain: Vec<u8> },
    /// the secret of an epoch, as sent to the receiver when it starts
    Key { epoch: usize, ratchet: u32, wire: u8, secret: Secret },
}

/// Runs the sender's script; join_at: the receiver under test gets the keys in force after that op
/// (0: from the very beginning).
fn play(script: &[Op], join_at: usize) -> Result<Vec<Item>, String> {
    let mut s = Context::new(secret(0));
    let (mut epoch, mut ratchet, mut count) = (0usize, 0u32, 0u64);
    let mut items = vec![];
    let key = |s: &Context, epoch: usize, ratchet: u32| {
        let (c, k) = s.send_state();
        Item::Key { epoch, ratchet, wire: c, secret: k }
    };
    if join_at == 0 {
        items.push(key(&s, 0, 0));
    }
    for (i, op) in script.iter().enumerate() {
        match *op {
            Op::Frame | Op::Lost(_) => {
                let n = if let Op::Lost(n) = *op { n } else { 1 };
                for _ in 0..n {
                    count += 1;
                    let plain: Vec<u8> = (0..(count % 5 + 1)).map(|b| (b * 37 + count) as u8).collect();
                    let mut cipher = plain.clone();
                    let mut mac = Mac::default();
                    let (r, f) = s.encrypt(&mut cipher, &mut mac).map_err(|e| format!("encrypt: {e}"))?;
                    ensure!(r == (ratchet % 256) as u8, "frame {count} says ratchet {r}, {ratchet} steps were taken");
                    if *op == Op::Frame {
                        items.push(Item::Frame { epoch, ratchet, wire: (r, f), cipher, mac, plain });
                    }
                }
            }
            Op::Advance(n) => {
                for _ in 0..n {
                    s.advance_send_ratchet();
                    ratchet += 1;
                }
            }
            Op::Reset => {
                epoch += 1;
                ratchet = 0;
                s.reset_send_ratchet(secret(epoch));
                if join_at <= i && join_at > 0 || join_at == 0 {
                    items.push(key(&s, epoch, 0));
                }
            }
        }
        if join_at == i + 1 {
            items.push(key(&s, epoch, ratchet));
        }
    }
    Ok(items)
}

/// One receiver and what it must and must not be able to do.
struct Receiver {
    c: Context,
    /// epoch -> first ratchet known
    have: BTreeMap<usize, u32>,
    order: Vec<usize>,
    /// epoch -> highest ratchet decrypted
    high: BTreeMap<usize, u32>,
    newest: u64,
    errors: u32,
}
const ID: u32 = 7;
impl Receiver {
    fn new() -> Receiver {
        Receiver { c: Context::new(secret(99)), have: BTreeMap::new(), order: vec![], high: BTreeMap::new(), newest: 0, errors: 0 }
    }
    fn failed(&mut self) -> Result<(), String> {
        self.errors += 1;
        self.stats()
    }
    fn stats(&mut self) -> Result<(), String> {
        let n = self.c.get_error_stats().get(&ID).map_or(0, |s| s.count);
        ensure!(n == self.errors, "{n} decryption errors counted, {} happened", self.errors);
        Ok(())
    }
    /// Returns whether the frame was one that had to decrypt.
    fn deliver(&mut self, it: &Item) -> Result<bool, String> {
        match it {
            Item::Key { epoch, ratchet, wire, secret } => {
                self.c.add_receive_secret(ID, *wire, *secret);
                self.have.insert(*epoch, *ratchet);
                self.order.retain(|e| e != epoch);
                self.order.push(*epoch);
                Ok(false)
            }
            Item::Frame { epoch, ratchet, wire, cipher, mac, plain } => {
                let mut d = cipher.clone();
                let r = self.c.decrypt(ID, wire.0, wire.1, &mut d, mac);
                let known = self.have.get(epoch).copied();
                let dropped = self.order.iter().rev().take(EPOCHS_KEPT).all(|e| e != epoch);
                let high = self.high.get(epoch).copied().unwrap_or(0);
                let too_old = ratchet + OOO_RATCHETS < high;
                let cannot = known.is_none_or(|k| *ratchet < k) || too_old;
                let must = !cannot && !dropped && wire.1 + OOO_FRAMES >= self.newest;
                match r {
                    Ok(()) => {
                        ensure!(!cannot, "decrypted a frame of epoch {epoch} ratchet {ratchet} although known from {known:?} and up to {high}");
                        ensure!(d == *plain, "frame {wire:?} decrypted to something else");
                        self.high.insert(*epoch, high.max(*ratchet));
                        self.newest = self.newest.max(wire.1);
                        self.stats()?;
                    }
                    Err(_) => {
                        ensure!(
                            !must,
                            "frame {} of ratchet {ratchet} (epoch {epoch}) did not decrypt; the receiver knows the epoch from ratchet {known:?}, is at {high} and has seen frame {}",
                            wire.1, self.newest
                        );
                        ensure!(d == *cipher, "a rejected frame was modified");
                        self.failed()?;
                    }
                }
                Ok(must)
            }
        }
    }
    /// Damaged versions of a frame: none may decrypt, none may leave a trace.
    fn forge(&mut self, it: &Item, kind: usize) -> Result<(), String> {
        let Item::Frame { wire, cipher, mac, .. } = it else { return Ok(()) };
        let (mut d, mut m, mut w, mut id) = (cipher.clone(), *mac, *wire, ID);
        match kind {
            0 => d[0] ^= 1,
            1 => *d.last_mut().unwrap() ^= 0x80,
            2 => m[0] ^= 1,
            3 => m[15] ^= 0x80,
            4 => w.1 += 1,
            5 => w.1 = w.1.wrapping_sub(1),
            6 => w.1 ^= 1 << 40,
            7 => w.0 = w.0.wrapping_add(1),
            8 => w.0 = w.0.wrapping_sub(1),
            9 => w.0 ^= 0x40,
            10 => {
                d.pop();
            }
            11 => d.push(0),
            12 => m = Mac::default(),
            13 => id = ID + 1,
            14 => d.clear(),
            _ => unreachable!(),
        }
        let before = d.clone();
        let r = self.c.decrypt(id, w.0, w.1, &mut d, &m);
        ensure!(r.is_err(), "a damaged frame (kind {kind}) was accepted");
        ensure!(d == before, "a damaged frame (kind {kind}) was decrypted in place");
        if id == ID { self.failed() } else { self.stats() }
    }
}
const KINDS: usize = 15;

/// The k-th permutation of 0..n.
fn permutation(n: usize, mut k: u64) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() {
        let f: u64 = (1..i as u64).product();
        out.push(left.remove((k / f) as usize));
        k %= f;
    }
    out
}
fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}

/// Scripts over the given alphabet with exactly `frames` delivered frames.
fn scripts(alpha: &[Op], len: usize, frames: std::ops::RangeInclusive<usize>) -> Vec<Vec<Op>> {
    let mut out = vec![];
    for k in 0..alpha.len().pow(len as u32) {
        let mut x = k;
        let s: Vec<Op> = (0..len)
            .map(|_| {
                let o = alpha[x % alpha.len()];
                x /= alpha.len();
                o
            })
            .collect();
        if frames.contains(&s.iter().filter(|o| **o == Op::Frame).count()) {
            out.push(s);
        }
    }
    out
}

struct Space {
    cases: Vec<(Vec<Op>, usize, Vec<Item>, u64)>,
    total: u64,
}
fn space(scripts: Vec<Vec<Op>>, joins: &[usize], dup: bool, max_items: usize) -> Space {
    let mut cases = vec![];
    let mut total = 0;
    for s in scripts {
        for &j in joins {
            if j > s.len() {
                continue;
            }
            let mut items = match play(&s, j) {
                Ok(i) => i,
                Err(_) => vec![],
            };
            if dup {
                // the first and the last frame arrive twice
                let f: Vec<Item> = items.iter().filter(|i| matches!(i, Item::Frame { .. })).cloned().collect();
                if f.len() > 1 {
                    items.push(f[0].clone());
                }
                items.extend(f.last().cloned());
            }
            if items.len() > max_items {
                continue;
            }
            let n = fact(items.len());
            cases.push((s.clone(), j, items, total));
            total += n;
        }
    }
    Space { cases, total }
}
impl Space {
    fn get(&self, i: u64) -> (&(Vec<Op>, usize, Vec<Item>, u64), Vec<usize>) {
        let k = self.cases.partition_point(|c| c.3 <= i) - 1;
        let c = &self.cases[k];
        (c, permutation(c.2.len(), i - c.3))
    }
}
fn run_space(c: &mut Check, name: &str, sp: Space, forge: bool, setup_first: bool) {
    let n = sp.total;
    c.enumerate(name, n, |i| {
        let ((script, join, items, _), p) = sp.get(i);
        let again = play(script, *join)?; // the sender's own checks
        let _ = again;
        // the first key arrives first: without it nothing can be said
        if setup_first && p[0] != 0 {
            return Ok(false);
        }
        let mut r = Receiver::new();
        let mut good = 0;
        let mut res = Ok(());
        for (k, &x) in p.iter().enumerate() {
            if forge {
                if let Err(e) = r.forge(&items[x], (i as usize + k) % KINDS) {
                    res = Err(e);
                    break;
                }
            }
            match r.deliver(&items[x]) {
                Ok(true) => good += 1,
                Ok(false) => {}
                Err(e) => {
                    res = Err(e);
                    break;
                }
            }
        }
        res.map_err(|e| {
            let d: Vec<String> = p.iter().map(|x| match &items[*x] {
                Item::Frame { epoch, wire, .. } => format!("frame {} (epoch {epoch} ratchet {})", wire.1, wire.0),
                Item::Key { epoch, ratchet, .. } => format!("key of epoch {epoch} at ratchet {ratchet}"),
            }).collect();
            format!("{e}; sender did {script:?}; arrival order {d:?}")
        })?;
        Ok(good > 1)
    });
}

fn c04() {
    use Op::*;
    let mut c = Check::new("C04", "exploration");
    c.rule("A case is a sender script (frames, ratchet advances, secret resets, losses) and one arrival order of all its frames and keys at a receiver; every script of the stated length and every arrival order is run on real Contexts. Non-trivial: at least two frames had to decrypt.");
    c.assume("HMAC and HKDF from the RustCrypto crates; the documented limits (300 frames, 5 ratchets, 5 secrets per sender) define which frames are in time.");
    let t = mclib::thorough();
    // every script of joins and leaves, every arrival order; the receiver is there from the start
    run_space(&mut c, "scripts_from_start", space(scripts(&[Frame, Advance(1), Reset], pick(7, 8), 2..=5), &[0], false, pick(7, 7)), false, false);
    run_space(&mut c, "scripts_duplicates", space(scripts(&[Frame, Advance(1), Reset], pick(5, 6), 2..=pick(3, 4)), &[0], true, pick(7, 7)), false, true);
    // the receiver joins in the middle
    run_space(&mut c, "scripts_late_joiner", space(scripts(&[Frame, Advance(1), Reset], pick(6, 7), 2..=5), &[1, 2, 3], false, pick(6, 7)), false, false);
    // distances around the documented limits
    let a = if t { vec![Frame, Advance(1), Advance(2), Lost(100), Lost(299), Lost(300), Lost(301)] } else { vec![Frame, Advance(1), Lost(299), Lost(301)] };
    run_space(&mut c, "scripts_frame_distance", space(scripts(&a, pick(7, 7), 3..=4), &[0], false, 6), false, true);
    run_space(&mut c, "scripts_frame_distance_within", space(scripts(&[Frame, Advance(1), Lost(100), Lost(296)], 7, 3..=4), &[0], false, 6), false, true);
    let a = [Frame, Advance(1), Advance(4), Advance(5), Advance(6)];
    run_space(&mut c, "scripts_ratchet_distance", space(scripts(&a, pick(6, 7), 3..=5), &[0], false, pick(6, 7)), false, true);
    // the ratchet counter wraps around (it is one byte)
    let wrap: Vec<Vec<Op>> = scripts(&[Frame, Advance(1), Advance(3)], pick(5, 6), 3..=4)
        .into_iter()
        .map(|s| {
            let mut v = vec![Frame, Lost(400), Advance(253), Frame];
            v.extend(s);
            v
        })
        .collect();
    run_space(&mut c, "scripts_ratchet_wraparound", space(wrap, &[4], false, pick(6, 7)), false, false);
    // more secrets than are kept
    let many: Vec<Vec<Op>> = (1..=7).map(|n| {
        let mut v = vec![Frame];
        for _ in 1..n {
            v.extend([Reset]);
        }
        v.push(Frame);
        v
    }).collect();
    run_space(&mut c, "many_secrets", space(many, &[0], false, pick(8, 9)), false, false);
    let z = sizes();
    c.enumerate("sizes", z.len() as u64, move |i| one_size(z[i as usize], false));
    let z = sizes();
    c.enumerate("wire_format", z.len() as u64 * 12, move |i| {
        let (k, v) = ((i / 12) as usize, i % 12);
        wire(z[k], [0, 1, 5, 255, 256, 300][v as usize / 2], [0, 299][v as usize % 2])
    });
    let s = id_sets();
    c.enumerate("many_senders", s.len() as u64, move |i| many_senders(&s[i as usize]));
    c.finish();
}

fn c05() {
    use Op::*;
    let mut c = Check::new("C05", "exploration");
    c.rule("As C04, with a damaged copy of every frame (each of 15 kinds of damage) delivered just before it: the damaged copy must be rejected, left undecrypted and counted as one error, and the genuine frames must decrypt exactly as without it. Receivers that join late, or never get the new secret, must not decrypt what was not meant for them. Non-trivial: at least two genuine frames had to decrypt.");
    c.assume("HMAC and HKDF from the RustCrypto crates are unforgeable.");
    run_space(&mut c, "damaged_frames", space(scripts(&[Frame, Advance(1), Reset], pick(7, 7), 2..=4), &[0, 2, 4], false, pick(6, 7)), true, true);
    // every kind of damage on a plain exchange, every bit
    c.enumerate("every_bit", 6 * (8 * (5 + 16) + 64 + 8), |i| {
        let items = play(&[Frame, Advance(1), Frame, Lost(1), Frame, Advance(6), Frame, Frame, Lost(2), Frame], 0)?;
        let frames: Vec<&Item> = items.iter().filter(|i| matches!(i, Item::Frame { .. })).collect();
        let fr = frames[(i % 6) as usize];
        let bit = (i / 6) as usize;
        let mut r = Receiver::new();
        r.deliver(&items[0])?;
        let Item::Frame { wire, cipher, mac, .. } = fr else { unreachable!() };
        let (mut d, mut m) = (cipher.clone(), *mac);
        let (mut ratchet, mut counter) = *wire;
        if bit >= 8 * (5 + 16) + 64 {
            ratchet ^= 1 << (bit - 8 * (5 + 16) - 64);
        } else if bit >= 8 * (5 + 16) {
            counter ^= 1 << (bit - 8 * (5 + 16));
        } else if bit < 128 {
            m[bit / 8] ^= 1 << (bit % 8);
        } else {
            let b = (bit - 128) % (d.len() * 8);
            d[b / 8] ^= 1 << (b % 8);
        }
        ensure!(r.c.decrypt(ID, ratchet, counter, &mut d, &m).is_err(), "a frame with bit {bit} flipped was accepted");
        r.failed()?;
        for f in frames {
            ensure!(r.deliver(f)?, "a damaged frame kept later ones from decrypting");
        }
        Ok(true)
    });
    // senders do not share keys: what one sent never decrypts as another's
    c.enumerate("other_senders", 64, |i| {
        let items = play(&[Frame, Advance(1), Frame], 0)?;
        let mut ctx = Context::new(secret(50));
        let mut errors = BTreeMap::<u32, u32>::new();
        for s in 0..3u32 {
            if i >> s & 1 == 1 {
                ctx.add_receive_secret(s, 0, secret(s as usize));
            }
        }
        for s in 0..3u32 {
            for it in &items {
                let Item::Frame { wire, cipher, mac, plain, .. } = it else { continue };
                let mut d = cipher.clone();
                let r = ctx.decrypt(s, wire.0, wire.1, &mut d, mac);
                let own = s == 0 && i & 1 == 1;
                ensure!(r.is_ok() == own, "frame of sender 0 given as sender {s}: {r:?}");
                ensure!(if own { d == *plain } else { d == *cipher }, "wrong contents");
                if !own {
                    *errors.entry(s).or_default() += 1;
                }
            }
        }
        let stats: BTreeMap<u32, u32> = ctx.get_error_stats().iter().map(|(k, v)| (*k, v.count)).filter(|x| x.1 > 0).collect();
        ensure!(stats == errors, "errors counted {stats:?}, happened {errors:?}");
        Ok(i & 1 == 1)
    });
    let z = sizes();
    c.enumerate("sizes", z.len() as u64, move |i| one_size(z[i as usize], true));
    let s = id_sets();
    c.enumerate("many_senders", s.len() as u64, move |i| many_senders(&s[i as usize]));
    c.enumerate("many_errors", 1, |_| {
        let mut r = Receiver::new();
        for _ in 0..pick(70_000, 200_000) {
            let mut d = [1, 2, 3];
            ensure!(r.c.decrypt(ID, 0, 1, &mut d, &Mac::default()).is_err(), "garbage decrypted");
            r.failed()?;
        }
        Ok(true)
    });
    c.bfs("error_reports", bfs::Limits::depth(pick(7, 9)), Reports::new);
    c.finish();
}

/// Decryption error reports: a sender's errors are reported once, after a quiet interval.
/// Frame sizes around those of blocks, packets and counters.
fn sizes() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    for s in [96, 128, 192, 256, 384, 512, 1024, 1200, 1500, 2048, 4096, 16384, 32768, 65536, 131_072, 1 << 20] {
        v.extend([s - 1, s, s + 1]);
    }
    v
}
fn text(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + i / 251 + salt) as u8).collect()
}
/// Frames of one size: they decrypt, and no byte of them can be changed, added or taken away.
fn one_size(n: usize, tamper: bool) -> Result<bool, String> {
    let mut tx = Context::new(secret(0));
    let mut rx = Context::new(secret(9));
    rx.add_receive_secret(ID, 0, secret(0));
    for k in 0..3 {
        let plain = text(n, k);
        let mut d = plain.clone();
        let mut m = Mac::default();
        let (r, f) = tx.encrypt(&mut d, &mut m).map_err(|e| e.to_string())?;
        if tamper {
            let every = if n <= 1501 { 1 } else { n / 300 };
            let at = (0..n).step_by(every.max(1)).chain([n.saturating_sub(1), n.saturating_sub(2), n.min(255), n.min(256), n.min(4095), n.min(4096), n.min(65535), n.min(65536)]);
            for i in at.filter(|i| *i < n) {
                let mut x = d.clone();
                x[i] ^= 1 << (i % 8);
                ensure!(rx.decrypt(ID, r, f, &mut x, &m).is_err(), "a frame of {n} bytes with byte {i} changed was accepted");
            }
            for cut in [1, 16, n / 2, n].into_iter().filter(|c| *c > 0 && *c <= n) {
                let mut x = d[..n - cut].to_vec();
                ensure!(rx.decrypt(ID, r, f, &mut x, &m).is_err(), "a frame of {n} bytes was accepted without its last {cut}");
            }
            for more in [1, 4, 16, 65536] {
                let mut x = d.clone();
                x.resize(n + more, 0);
                ensure!(rx.decrypt(ID, r, f, &mut x, &m).is_err(), "a frame of {n} bytes was accepted with {more} more");
            }
        }
        if n > 8 {
            ensure!(d != plain, "a frame of {n} bytes was not encrypted");
        }
        rx.decrypt(ID, r, f, &mut d, &m).map_err(|e| format!("a frame of {n} bytes: {e}"))?;
        ensure!(d == plain, "a frame of {n} bytes decrypted to something else");
        if k == 1 {
            tx.advance_send_ratchet();
        }
    }
    Ok(n > 0)
}
/// What a frame looks like on the wire, computed independently: every version has to agree on it.
fn reference(secret: &Secret, steps: u32, counter: u64, text: &[u8]) -> (Vec<u8>, Mac) {
    use aes::cipher::{KeyIvInit, StreamCipher};
    use hmac::Mac as _;
    let expand = |s: &[u8], info: &str| {
        let mut out = [0u8; 32];
        hkdf::Hkdf::<sha2::Sha256>::new(None, s).expand(info.as_bytes(), &mut out).unwrap();
        out
    };
    let mut s = *secret;
    for _ in 0..steps {
        s = expand(&s, "RingRTC Ratchet");
    }
    let mut iv = [0u8; 16];
    iv[..8].copy_from_slice(&counter.to_be_bytes());
    let mut cipher = text.to_vec();
    ctr::Ctr64BE::<aes::Aes256>::new(&expand(&s, "RingRTC AES Key").into(), &iv.into()).apply_keystream(&mut cipher);
    let mut h = hmac::Hmac::<sha2::Sha256>::new_from_slice(&expand(&s, "RingRTC HMAC Key")).unwrap();
    h.update(&iv);
    h.update(&(cipher.len() as u32).to_be_bytes());
    h.update(&cipher);
    h.update(&[0; 4]);
    (cipher, h.finalize().into_bytes()[..16].try_into().unwrap())
}
/// Frames made here decrypt in a receiver, and those of a sender are what is made here.
fn wire(n: usize, steps: u32, skip: u64) -> Result<bool, String> {
    let mut tx = Context::new(secret(3));
    let mut rx = Context::new(secret(9));
    if steps < 256 {
        rx.add_receive_secret(ID, 0, secret(3));
    }
    for _ in 0..steps {
        tx.advance_send_ratchet();
    }
    if steps >= 256 {
        let (c, k) = tx.send_state(); // (a full round of the counter cannot be seen)
        rx.add_receive_secret(ID, c, k);
    }
    for _ in 0..skip {
        tx.encrypt(&mut [], &mut Mac::default()).map_err(|e| e.to_string())?;
    }
    let plain = text(n, 5);
    let mut d = plain.clone();
    let mut m = Mac::default();
    let (r, f) = tx.encrypt(&mut d, &mut m).map_err(|e| e.to_string())?;
    ensure!((r as u32, f) == (steps % 256, skip + 1), "frame {} of ratchet {steps} is numbered {f} of {r}", skip + 1);
    let (cipher, mac) = reference(&secret(3), steps, f, &plain);
    ensure!(d == cipher, "a frame of {n} bytes after {steps} ratchet steps is not encrypted as documented");
    ensure!(m == mac, "a frame of {n} bytes after {steps} ratchet steps is not authenticated as documented");
    // also one that comes much later
    for f in [f, f + 299, 1 << 20, (1 << 33) + 7] {
        let (mut x, mac) = reference(&secret(3), steps, f, &plain);
        rx.decrypt(ID, r, f, &mut x, &mac).map_err(|e| format!("frame {f} of ratchet {steps}, {n} bytes, of another version: {e}"))?;
        ensure!(x == plain, "frame {f} of another version decrypted to something else");
    }
    Ok(true)
}
/// Many senders at once, each with a secret and frames of its own.
fn many_senders(ids: &[u32]) -> Result<bool, String> {
    let own = |k: usize| {
        let mut s = secret(k % 200);
        s[1] = (k / 200) as u8;
        s[2] = (k / 200 / 256) as u8;
        s
    };
    let mut rx = Context::new(secret(250));
    let mut tx: Vec<Context> = (0..ids.len()).map(|k| Context::new(own(k))).collect();
    for (k, id) in ids.iter().enumerate() {
        rx.add_receive_secret(*id, 0, own(k));
    }
    for round in 0..2 {
        for (k, id) in ids.iter().enumerate() {
            let plain = text(20, k + round);
            let mut d = plain.clone();
            let mut m = Mac::default();
            let (r, f) = tx[k].encrypt(&mut d, &mut m).map_err(|e| e.to_string())?;
            let other = ids[(k + 1) % ids.len()];
            if other != *id {
                let mut x = d.clone();
                ensure!(rx.decrypt(other, r, f, &mut x, &m).is_err(), "a frame of sender {id} was accepted as one of {other}");
                let n = rx.get_error_stats().get(&other).map_or(0, |s| s.count);
                ensure!(n == round as u32 + 1, "sender {other} has {n} errors after {}", round + 1);
            }
            rx.decrypt(*id, r, f, &mut d, &m).map_err(|e| format!("sender {id} of {}: {e}", ids.len()))?;
            ensure!(d == plain, "sender {id}: decrypted to something else");
            tx[k].advance_send_ratchet();
        }
    }
    Ok(ids.len() > 1)
}
fn id_sets() -> Vec<Vec<u32>> {
    let edge = [0u32, 1, 2, 255, 256, 257, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX - 1, u32::MAX];
    let mut v: Vec<Vec<u32>> = edge.iter().flat_map(|a| edge.iter().filter(move |b| *b > a).map(move |b| vec![*a, *b])).collect();
    v.push(edge.to_vec());
    v.extend([16u32, 17, 64, 65, 256, 300, 1100].map(|n| (0..n).collect()));
    v.extend([300u32].map(|n| (0..n).map(|k| k * 16 + 1).collect()));
    v
}

struct Reports {
    c: Context,
    /// sender -> (first, last, count); times in ticks
    m: BTreeMap<u32, (u64, u64, u32)>,
    checked: u64,
    now: u64,
    /// second 0
    zero: mcstd::time::SystemTime,
    seen: Vec<&'static str>,
}
impl Reports {
    fn new() -> Reports {
        mcstd::mc::set_free_clock(0);
        let zero = mcstd::time::SystemTime::now();
        mcstd::mc::set_free_clock(1_000_000_000);
        Reports { c: Context::new(secret(1)), m: BTreeMap::new(), checked: 1, now: 1, zero, seen: vec![] }
    }
}
impl bfs::System for Reports {
    fn actions(&mut self) -> usize {
        4
    }
    fn describe(&mut self, i: usize) -> String {
        ["error from sender 0", "error from sender 1", "a second passes", "get_error_report"][i].into()
    }
    fn apply(&mut self, i: usize) -> Result<(), String> {
        match i {
            0 | 1 => {
                let mut d = [1, 2, 3];
                ensure!(self.c.decrypt(i as u32, 0, 1, &mut d, &Mac::default()).is_err(), "garbage decrypted");
                let now = self.now;
                let e = self.m.entry(i as u32).or_insert((now, now, 0));
                e.1 = now;
                e.2 += 1;
            }
            2 => {
                self.now += 1;
                mcstd::mc::set_free_clock(self.now * 1_000_000_000);
            }
            _ => {
                let due: BTreeMap<u32, (u64, u64, u32)> = self.m.iter().filter(|(_, v)| v.1 < self.checked).map(|(k, v)| (*k, *v)).collect();
                let s = |t: mcstd::time::SystemTime| t.duration_since(self.zero).unwrap().as_secs();
                let got: BTreeMap<u32, (u64, u64, u32)> = self.c.get_error_report().unwrap_or_default().into_iter().map(|(k, v)| (k, (s(v.start_time), s(v.last_time), v.count))).collect();
                ensure!(got == due, "reported {got:?}, expected {due:?}");
                if !due.is_empty() {
                    self.seen = vec!["reported"];
                }
                for k in due.keys() {
                    self.m.remove(k);
                }
                self.checked = self.now;
            }
        }
        let s = |t: mcstd::time::SystemTime| t.duration_since(self.zero).unwrap().as_secs();
        let stats: BTreeMap<u32, (u64, u64, u32)> = self.c.get_error_stats().iter().map(|(k, v)| (*k, (s(v.start_time), s(v.last_time), v.count))).collect();
        let want = self.m.clone();
        ensure!(stats == want, "stats {stats:?}, expected {want:?}");
        Ok(())
    }
    fn key(&self) -> String {
        let rel: Vec<_> = self.m.iter().map(|(k, v)| (k, self.now - v.0, self.now - v.1, v.2)).collect();
        format!("{rel:?} {}", self.now - self.checked)
    }
    fn reached(&self) -> Vec<&'static str> {
        self.seen.clone()
    }
}

fn c06() {
    let mut c = Check::new("C06", "exploration");
    c.rule("Every sequence of encrypt / advance / reset (to a new or to the same secret) up to the stated length on a real Context; the key stream of every frame is exposed by encrypting zeros and compared with all others. Non-trivial: at least two frames and one key change.");
    let len = pick(8u32, 10);
    let run = |start: u32, ops: &[u64]| -> Result<bool, String> {
        let mut s = Context::new(secret(0));
        for _ in 0..start {
            s.advance_send_ratchet();
        }
        let mut streams = HashSet::new();
        let mut macs = HashSet::new();
        let mut secrets = HashSet::new();
        secrets.insert(s.send_state().1);
        let (mut last, mut epoch, mut ratchet, mut frames, mut changes) = (0u64, 0, start, 0, 0);
        // an outsider that knows the present secret only
        for o in ops {
            match o {
                0 => {
                    let mut d = [0u8; 48];
                    let mut m = Mac::default();
                    let (r, f) = s.encrypt(&mut d, &mut m).map_err(|e| e.to_string())?;
                    ensure!(f > last, "frame counter went from {last} to {f}");
                    ensure!(r == (ratchet % 256) as u8, "ratchet counter {r} after {ratchet} steps");
                    last = f;
                    for b in d.chunks(16) {
                        ensure!(b != [0u8; 16], "a frame went out unencrypted");
                        ensure!(streams.insert(b.to_vec()), "key stream used twice (frame {f})");
                    }
                    ensure!(macs.insert(m), "same authentication tag twice (frame {f})");
                    // whoever has the announced state reads it
                    let (c, k) = s.send_state();
                    let mut rx = Context::new(secret(77));
                    rx.add_receive_secret(1, c, k);
                    ensure!(rx.decrypt(1, r, f, &mut d, &m).is_ok() && d == [0u8; 48], "the announced state does not decrypt frame {f}");
                    frames += 1;
                }
                1 => {
                    let (c, k) = s.advance_send_ratchet();
                    ratchet += 1;
                    ensure!(c == (ratchet % 256) as u8, "announced ratchet {c} after {ratchet} steps");
                    ensure!((c, k) == s.send_state(), "advance announced another state");
                    ensure!(secrets.insert(k), "ratchet secret repeated");
                    changes += 1;
                }
                2 => {
                    epoch += 1;
                    ratchet = 0;
                    s.reset_send_ratchet(secret(epoch));
                    ensure!(s.send_state() == (0, secret(epoch)), "reset announced {:?}", s.send_state().0);
                    ensure!(secrets.insert(secret(epoch)), "secret repeated");
                    changes += 1;
                }
                _ => {
                    // the same secret again: only the frame counter keeps key streams apart
                    let k = secret(epoch);
                    ratchet = 0;
                    s.reset_send_ratchet(k);
                    secrets.clear();
                    secrets.insert(k);
                }
            }
        }
        Ok(frames > 1 && changes > 0)
    };
    c.enumerate("sequences", 4u64.pow(len), |i| {
        let ops: Vec<u64> = (0..len).map(|k| i / 4u64.pow(k) % 4).collect();
        run(0, &ops)
    });
    c.enumerate("sequences_across_wraparound", 4u64.pow(6), |i| {
        let ops: Vec<u64> = (0..6).map(|k| i / 4u64.pow(k) % 4).collect();
        run(253, &ops)
    });
    c.enumerate("long_ratchet", 1, |_| {
        let ops: Vec<u64> = (0..2000).map(|k| if k % 2 == 0 { 0 } else { 1 }).collect();
        run(0, &ops)
    });
    // as many frames under one key as two and a half hours of audio, across a reset to the same key
    c.enumerate("many_frames", pick(1, 2), |i| {
        let mut s = Context::new(secret(0));
        let mut last = 0;
        let n = if i == 0 { (1u64 << 17) + 1000 } else { 1 << 24 };
        let mut streams = HashSet::with_capacity(n as usize);
        for k in 0..n {
            if i == 0 && k == 70_000 {
                s.reset_send_ratchet(secret(0));
            }
            let mut d = [0u8; 32];
            let (_, f) = s.encrypt(&mut d, &mut Mac::default()).map_err(|e| e.to_string())?;
            ensure!(f > last, "frame counter went from {last} to {f}");
            last = f;
            for b in d.chunks(16) {
                ensure!(streams.insert(<[u8; 16]>::try_from(b).unwrap()), "key stream used twice: frame {f} under one key");
            }
        }
        Ok(true)
    });
    // within and between frames of any size
    let z = sizes();
    c.enumerate("frame_sizes", z.len() as u64, move |i| {
        let n = z[i as usize];
        let mut s = Context::new(secret(0));
        let mut streams = HashSet::new();
        for k in 0..4 {
            let mut d = vec![0u8; n];
            s.encrypt(&mut d, &mut Mac::default()).map_err(|e| e.to_string())?;
            // (the last 16 bytes may overlap the block before them)
            for b in d.chunks_exact(16) {
                ensure!(streams.insert(<[u8; 16]>::try_from(b).unwrap()), "key stream used twice in frames of {n} bytes");
            }
            if k == 1 {
                s.advance_send_ratchet();
            }
        }
        Ok(n >= 16)
    });
    c.sample(json!({"script": "encrypt, advance, encrypt, reset, encrypt, reset to the same secret, encrypt"}));
    c.finish();
}

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C04" => c04(),
        "C05" => c05(),
        "C06" => c06(),
        x => mclib::die(&format!("unknown property {x}")),
    }
}
