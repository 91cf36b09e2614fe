use std::{collections::{BTreeMap, BTreeSet}, fmt::Write as _};

use mclib::{Check, bfs, ensure, pick};
use mrp::{MrpHeader, MrpReceiveError, MrpSendError, MrpStream, PacketWrapper};

use crate::link::at;

/// Payload bytes: every fragment is a distinct byte.
type Pkt = PacketWrapper<Vec<u8>>;

#[derive(Clone, Copy)]
struct Cfg {
    window: usize,
    messages: usize,
    net: usize,
    resends: u32,
    max_frags: usize,
}

/// A sends whole messages (plain or in fragments) to B over a hostile network.
struct Frag {
    c: Cfg,
    a: MrpStream<Pkt, Pkt>,
    b: MrpStream<Pkt, Pkt>,
    to_b: Vec<Pkt>,
    to_a: Vec<Pkt>,
    /// group of every seqnum sent: (message, first seqnum, length)
    groups: Vec<(u64, u64)>,
    next_seq: u64,
    acked: u64,
    got: BTreeSet<u64>,
    contig: u64,
    delivered: usize,
    resends: u32,
    may_ack: bool,
    acts: Vec<Act>,
    seen: BTreeSet<&'static str>,
}

#[derive(Clone, Debug)]
enum Act {
    Send(usize),
    Deliver(usize, bool),
    Drop(usize),
    DeliverAck(usize),
    DropAck(usize),
    Ack,
    Resend,
}

/// A window of usize::MAX stands for a stream without limit.
fn stream(window: usize) -> MrpStream<Pkt, Pkt> {
    if window == usize::MAX { MrpStream::default() } else { MrpStream::with_capacity_limit(window) }
}

impl Frag {
    fn new(c: Cfg) -> Frag {
        Frag {
            c,
            a: stream(c.window),
            b: stream(c.window),
            to_b: vec![],
            to_a: vec![],
            groups: vec![],
            next_seq: 1,
            acked: 0,
            got: BTreeSet::new(),
            contig: 0,
            delivered: 0,
            resends: 0,
            may_ack: false,
            acts: vec![],
            seen: BTreeSet::new(),
        }
    }
    fn in_window(&self) -> usize {
        (self.next_seq - 1 - self.acked) as usize
    }
    /// frags 0: a plain packet
    fn send(&mut self, frags: usize) -> Result<(), String> {
        let n = frags.max(1);
        let first = self.next_seq;
        let bytes: Vec<u8> = (0..n as u64).map(|k| (first + k) as u8).collect();
        let mut out: Vec<Pkt> = vec![];
        let r = if frags == 0 {
            self.a.try_send(|h| {
                let p = PacketWrapper(h, bytes.clone());
                out.push(p.clone());
                Ok((p, at(1)))
            })
        } else {
            let f = bytes.iter().map(|b| PacketWrapper(MrpHeader::default(), vec![*b])).collect();
            let mut idxs = vec![];
            let r = self.a.try_send_fragmented(f, |i, h, mut p| {
                idxs.push(i);
                p.0 = h;
                out.push(p.clone());
                (p, at(1))
            });
            ensure!(r.is_err() || idxs == (0..frags).collect::<Vec<_>>(), "fragment indices {idxs:?}");
            r
        };
        let (used, cap) = (self.in_window(), self.c.window);
        match &r {
            Ok(()) => {
                ensure!(used + n <= cap, "{n} fragments accepted with {used} of {cap} in the window");
                ensure!(out.len() == n, "{} of {n} fragments handed to the transport", out.len());
                for (k, p) in out.iter().enumerate() {
                    ensure!(p.0.seqnum == Some(first + k as u64) && p.0.ack_num.is_none(), "fragment {k} header {:?}", p.0);
                    let want = if k == 0 && frags > 0 { n as u32 } else { 0 };
                    ensure!(p.0.num_packets.unwrap_or(0) == want, "fragment {k} of {n} announces {:?}", p.0.num_packets);
                }
                self.groups.push((first, n as u64));
                self.next_seq += n as u64;
                self.to_b.extend(out);
                self.to_b.sort_by_key(|p| p.0.seqnum);
                if n > 1 {
                    self.seen.insert("fragmented");
                }
            }
            Err(MrpSendError::SendWindowFull) => {
                ensure!(out.is_empty(), "part of a rejected message was transmitted: {out:?}");
                // a message that exactly fills the window may be refused (it is today)
                let room = if frags == 0 { used < cap } else { used + n < cap };
                ensure!(!room, "{n} fragments refused with {used} of {cap} in the window");
                self.seen.insert("refused");
            }
            Err(e) => return Err(format!("send: {e:?}")),
        }
        self.check()
    }
    fn receive(&mut self, p: Pkt) -> Result<(), String> {
        let seq = p.0.seqnum.unwrap();
        let left = self.contig + 1;
        let r = self.b.receive_and_merge(&p.0.clone(), p);
        self.may_ack = true;
        if seq > self.contig.saturating_add(self.c.window as u64) {
            ensure!(r == Err(MrpReceiveError::ReceiveWindowFull(seq)), "past the window: {r:?}");
            return self.check();
        }
        if seq >= left {
            self.got.insert(seq);
            while self.got.contains(&(self.contig + 1)) {
                self.contig += 1;
            }
        }
        let mut expect: Vec<Vec<u8>> = vec![];
        while let Some(&(f, n)) = self.groups.get(self.delivered) {
            if f + n - 1 > self.contig {
                break;
            }
            expect.push((f..f + n).map(|b| b as u8).collect());
            self.delivered += 1;
        }
        let got: Result<Vec<Vec<u8>>, _> = r.map(|v| v.into_iter().map(|p| p.1).collect());
        ensure!(got == Ok(expect.clone()), "packet {seq} released messages {got:?}, expected {expect:?} (groups {:?})", self.groups);
        if expect.len() > 1 {
            self.seen.insert("several_messages_at_once");
        }
        if self.groups.get(self.delivered).is_some_and(|g| self.contig >= g.0 && g.1 > 1) {
            self.seen.insert("half_assembled");
        }
        self.check()
    }
    fn resend(&mut self) -> Result<(), String> {
        let mut out = vec![];
        self.a.try_resend(at(1), |p| {
            out.push(p.clone());
            Ok(at(1))
        }).map_err(|e| format!("{e:?}"))?;
        let seqs: Vec<_> = out.iter().map(|p: &Pkt| p.0.seqnum.unwrap()).collect();
        ensure!(seqs == (self.acked + 1..self.next_seq).collect::<Vec<_>>(), "retransmitted {seqs:?}, unacknowledged {}..{}", self.acked + 1, self.next_seq);
        self.to_b.extend(out);
        self.to_b.sort_by_key(|p| p.0.seqnum);
        self.check()
    }
    fn ack(&mut self) -> Result<(), String> {
        let mut h = None;
        self.b.try_send_ack(|x| { h = Some(x); Ok(()) }).map_err(|e| format!("{e:?}"))?;
        if let Some(h) = h {
            ensure!(h.ack_num == Some(self.contig + 1), "acknowledged {h:?} after 1..={}", self.contig);
            self.to_a.push(PacketWrapper(h, vec![]));
            self.to_a.sort_by_key(|p| p.0.ack_num);
        }
        self.may_ack = false;
        self.check()
    }
    fn deliver_ack(&mut self, p: Pkt) -> Result<(), String> {
        let n = p.0.ack_num.unwrap();
        let r = self.a.receive_and_merge(&p.0.clone(), p);
        ensure!(r == Ok(vec![]), "an acknowledgement gave {r:?}");
        self.acked = self.acked.max(n - 1);
        self.check()
    }
    fn check(&mut self) -> Result<(), String> {
        ensure!(self.a.send_len() == self.in_window(), "send window {} vs {}", self.a.send_len(), self.in_window());
        ensure!(self.b.receive_len() <= self.c.window, "receive buffer {}", self.b.receive_len());
        ensure!(self.b.ack_seqnum() == self.contig + 1, "ack_seqnum {} after 1..={}", self.b.ack_seqnum(), self.contig);
        Ok(())
    }
}

impl bfs::System for Frag {
    fn actions(&mut self) -> usize {
        let mut v = vec![];
        if self.groups.len() < self.c.messages {
            for n in 0..=self.c.max_frags {
                if self.to_b.len() + n.max(1) <= self.c.net || self.in_window().saturating_add(n) > self.c.window {
                    v.push(Act::Send(n));
                }
            }
        }
        for k in 0..self.to_b.len() {
            if k > 0 && self.to_b[k] == self.to_b[k - 1] {
                continue;
            }
            v.extend([Act::Deliver(k, false), Act::Deliver(k, true), Act::Drop(k)]);
        }
        for k in 0..self.to_a.len() {
            if k > 0 && self.to_a[k] == self.to_a[k - 1] {
                continue;
            }
            v.extend([Act::DeliverAck(k), Act::DropAck(k)]);
        }
        if self.may_ack && self.to_a.len() < 2 {
            v.push(Act::Ack);
        }
        if self.in_window() > 0 && self.resends < self.c.resends && self.to_b.len() + self.in_window() <= self.c.net {
            v.push(Act::Resend);
        }
        self.acts = v;
        self.acts.len()
    }
    fn describe(&mut self, i: usize) -> String {
        match &self.acts[i] {
            Act::Deliver(k, keep) => format!("Deliver {:?}{}", self.to_b[*k], if *keep { " (a copy stays in flight)" } else { "" }),
            Act::Drop(k) => format!("Lose {:?}", self.to_b[*k]),
            Act::DeliverAck(k) => format!("Deliver {:?}", self.to_a[*k]),
            a => format!("{a:?}"),
        }
    }
    fn apply(&mut self, i: usize) -> Result<(), String> {
        match self.acts[i].clone() {
            Act::Send(n) => self.send(n),
            Act::Deliver(k, true) => self.receive(self.to_b[k].clone()),
            Act::Deliver(k, false) => {
                let p = self.to_b.remove(k);
                self.receive(p)
            }
            Act::Drop(k) => {
                self.to_b.remove(k);
                Ok(())
            }
            Act::DeliverAck(k) => {
                let p = self.to_a.remove(k);
                self.deliver_ack(p)
            }
            Act::DropAck(k) => {
                self.to_a.remove(k);
                Ok(())
            }
            Act::Ack => self.ack(),
            Act::Resend => {
                self.resends += 1;
                self.resend()
            }
        }
    }
    fn key(&self) -> String {
        let mut k = String::new();
        write!(k, "{:?}|{:?}|{:?}|{:?}|{:?}|{:?}|{}|{}", self.a, self.b, self.to_b, self.to_a, self.groups, self.got, self.resends, self.may_ack).unwrap();
        k
    }
    fn has_state_check() -> bool {
        true
    }
    fn check_state(mut self) -> Result<(), String> {
        for _ in 0..32 {
            self.resend()?;
            while let Some(p) = self.to_b.pop() {
                self.receive(p)?;
            }
            self.ack()?;
            while let Some(p) = self.to_a.pop() {
                self.deliver_ack(p)?;
            }
            if self.groups.len() < self.c.messages {
                self.send(self.groups.len() % (self.c.max_frags + 1))?;
            } else if self.delivered == self.groups.len() && self.a.send_len() == 0 {
                return Ok(());
            }
        }
        Err(format!("with a lossless network only {} of {} messages are ever delivered", self.delivered, self.groups.len()))
    }
    fn reached(&self) -> Vec<&'static str> {
        self.seen.iter().copied().collect()
    }
}

/// A peer that writes arbitrary headers.
struct Hostile {
    w: usize,
    seqs: u64,
    steps: usize,
    s: MrpStream<Pkt, Pkt>,
    /// every version received in the window, per seqnum: payload -> announced length
    versions: BTreeMap<u64, BTreeSet<Vec<u8>>>,
    contig: u64,
    /// highest seqnum released to the application
    released: u64,
    done: usize,
    /// what the receiver is in the middle of, as long as the reading is unambiguous
    at: Option<At>,
    seen: BTreeSet<&'static str>,
}
#[derive(Clone, Debug)]
enum At {
    Between,
    Within { end: u64, got: Vec<u8> },
    /// the rest of a message that was given up
    Dropping { end: u64 },
}
const LENGTHS: [Option<u32>; 7] = [None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(u32::MAX)];

impl Hostile {
    fn new(w: usize, seqs: u64, steps: usize) -> Hostile {
        Hostile { w, seqs, steps, s: MrpStream::with_capacity_limit(w), versions: BTreeMap::new(), contig: 0, released: 0, done: 0, at: Some(At::Between), seen: BTreeSet::new() }
    }
    /// What the packets that are now contiguous should give; None if it cannot be said: a packet
    /// came in two versions, or others arrived together with one that is in error.
    fn read(&mut self, seqs: std::ops::RangeInclusive<u64>) -> Option<Result<Vec<Vec<u8>>, MrpReceiveError>> {
        let alone = seqs.clone().count() == 1;
        let mut out = vec![];
        for seq in seqs {
            let v = &self.versions[&seq];
            if v.len() != 1 {
                return None;
            }
            let body = v.first().unwrap().clone();
            let n = LENGTHS[body[1] as usize].unwrap_or(0);
            let mut at = self.at.take()?;
            if matches!(at, At::Dropping { end } if seq > end) {
                at = At::Between;
            }
            let mut error = None;
            self.at = Some(match at {
                At::Dropping { end } => {
                    self.seen.insert("dropped_the_rest");
                    At::Dropping { end }
                }
                At::Within { end, .. } if n != 0 => {
                    error = Some(MrpReceiveError::PacketMergeConflict);
                    At::Dropping { end }
                }
                At::Within { end, mut got } => {
                    got.extend(body);
                    if seq == end {
                        out.push(got);
                        At::Between
                    } else {
                        At::Within { end, got }
                    }
                }
                At::Between if n <= 1 => {
                    out.push(body);
                    At::Between
                }
                At::Between if n as usize > self.w => {
                    error = Some(MrpReceiveError::InvalidNumPackets(n));
                    At::Between
                }
                At::Between => At::Within { end: seq + n as u64 - 1, got: body },
            });
            if let Some(e) = error {
                return alone.then_some(Err(e));
            }
        }
        Some(Ok(out))
    }
    /// payload: [seq, index into LENGTHS]
    fn feed(&mut self, seq: u64, l: usize) -> Result<Vec<Vec<u8>>, String> {
        let body = vec![seq as u8, l as u8];
        let h = MrpHeader::new_with_length(Some(seq), None, LENGTHS[l]);
        let r = self.s.receive_and_merge(&h, PacketWrapper(h.clone(), body.clone()));
        let before = self.contig;
        if seq > self.contig && seq <= self.contig + self.w as u64 {
            self.versions.entry(seq).or_default().insert(body);
            while self.versions.contains_key(&(self.contig + 1)) {
                self.contig += 1;
            }
        } else if seq > self.contig {
            ensure!(r == Err(MrpReceiveError::ReceiveWindowFull(seq)), "past the window: {r:?}");
        }
        ensure!(self.s.receive_len() <= self.w, "receive buffer {}", self.s.receive_len());
        ensure!(self.s.ack_seqnum() == self.contig + 1, "ack_seqnum {} after 1..={}", self.s.ack_seqnum(), self.contig);
        if self.contig > before {
            match self.read(before + 1..=self.contig) {
                Some(want) => {
                    let got: Result<Vec<Vec<u8>>, MrpReceiveError> = r.clone().map(|v| v.into_iter().map(|p| p.1).collect());
                    ensure!(got == want, "packets {}..={} gave {got:?} instead of {want:?}", before + 1, self.contig);
                }
                None => self.at = None,
            }
        }
        let out = match r {
            Ok(v) => v,
            Err(e) => {
                match e {
                    MrpReceiveError::PacketMergeConflict => self.seen.insert("conflict"),
                    MrpReceiveError::InvalidNumPackets(_) => self.seen.insert("invalid_length"),
                    MrpReceiveError::ReceiveWindowFull(_) => self.seen.insert("past_window"),
                    e => return Err(format!("{e:?}")),
                };
                vec![]
            }
        };
        let mut msgs = vec![];
        for m in out {
            let parts: Vec<(u64, usize)> = m.1.chunks(2).map(|c| (c[0] as u64, c[1] as usize)).collect();
            let n = LENGTHS[parts[0].1].unwrap_or(0).max(1);
            ensure!(parts.len() == n as usize, "a message of {} packets was released, its first announced {n}: {parts:?}", parts.len());
            for (k, p) in parts.iter().enumerate() {
                ensure!(p.0 == parts[0].0 + k as u64, "a message mixes packets {parts:?}");
                ensure!(self.versions.get(&p.0).is_some_and(|v| v.contains(&vec![p.0 as u8, p.1 as u8])), "released something never received: {parts:?}");
                ensure!(k == 0 || LENGTHS[p.1].unwrap_or(0) == 0, "a message swallowed the start of another: {parts:?}");
            }
            ensure!(parts[0].0 > self.released, "packet {} released again or out of order", parts[0].0);
            self.released = parts.last().unwrap().0;
            ensure!(self.released <= self.contig, "released beyond a gap");
            if n > 1 {
                self.seen.insert("merged");
            }
            msgs.push(m.1);
        }
        Ok(msgs)
    }
}
impl bfs::System for Hostile {
    fn actions(&mut self) -> usize {
        if self.done >= self.steps { 0 } else { (self.seqs as usize + 1) * LENGTHS.len() }
    }
    fn describe(&mut self, i: usize) -> String {
        format!("packet seqnum {} announcing {:?}", i / LENGTHS.len(), LENGTHS[i % LENGTHS.len()])
    }
    fn apply(&mut self, i: usize) -> Result<(), String> {
        self.done += 1;
        self.feed((i / LENGTHS.len()) as u64, i % LENGTHS.len()).map(|_| ())
    }
    fn key(&self) -> String {
        format!("{:?}|{:?}|{:?}|{}|{}|{}", self.at, self.s, self.versions, self.contig, self.released, self.done)
    }
    fn has_state_check() -> bool {
        true
    }
    /// Whatever happened before, well-formed messages after the mess arrive intact.
    fn check_state(mut self) -> Result<(), String> {
        let end = self.contig.max(self.seqs) + self.w as u64 + 8;
        for seq in self.contig + 1..=end {
            if self.versions.contains_key(&seq) {
                continue;
            }
            self.feed(seq, 0)?;
        }
        ensure!(self.contig == end, "only 1..={} of 1..={end} went through", self.contig);
        let a = self.feed(end + 1, 0)?;
        ensure!(a == vec![vec![(end + 1) as u8, 0]], "a plain packet after the mess gave {a:?}");
        let a = self.feed(end + 2, 3)?;
        ensure!(a.is_empty(), "half a message gave {a:?}");
        let a = self.feed(end + 3, 0)?;
        ensure!(a == vec![vec![(end + 2) as u8, 3, (end + 3) as u8, 0]], "a message of two after the mess gave {a:?}");
        // one that fills the whole window, the last fragment first
        let (n, start) = (self.w as u64, end + 4);
        let l = LENGTHS.iter().position(|l| *l == Some(self.w as u32)).expect("a length that fills the window");
        let mut whole = vec![];
        for k in 0..n {
            whole.extend([(start + k) as u8, if k == 0 { l as u8 } else { 0 }]);
        }
        for k in (0..n).rev() {
            let a = self.feed(start + k, if k == 0 { l } else { 0 })?;
            let want = if k == 0 { vec![whole.clone()] } else { vec![] };
            ensure!(a == want, "a message of {n} after the mess gave {a:?}");
        }
        Ok(())
    }
    fn reached(&self) -> Vec<&'static str> {
        self.seen.iter().copied().collect()
    }
}

/// A message of n fragments between two plain ones, of which packet i is lost at first, then the same again.
fn large(window: usize, n: usize, i: usize, backwards: bool) -> Result<bool, String> {
    let mut f = Frag::new(Cfg { window, messages: 6, net: usize::MAX, resends: u32::MAX, max_frags: 0 });
    for round in 0..2 {
        f.send(0)?;
        f.send(n)?;
        if f.groups.len() != round * 3 + 2 {
            // it does not fit beside the other: it has to go alone
            while let Some(p) = f.to_b.pop() {
                f.receive(p)?;
            }
            f.ack()?;
            while let Some(p) = f.to_a.pop() {
                f.deliver_ack(p)?;
            }
            f.send(n)?;
        }
        let mut packets = std::mem::take(&mut f.to_b);
        if backwards {
            packets.reverse();
        }
        for (k, p) in packets.into_iter().enumerate() {
            if k != i {
                f.receive(p)?;
            }
        }
        f.resend()?;
        for p in std::mem::take(&mut f.to_b) {
            f.receive(p)?;
        }
        f.ack()?;
        while let Some(p) = f.to_a.pop() {
            f.deliver_ack(p)?;
        }
        f.send(0)?;
        ensure!(f.groups.len() >= 2 * (round + 1) && f.delivered + 1 == f.groups.len(), "{} of {} messages delivered", f.delivered, f.groups.len());
    }
    bfs::System::check_state(f)?;
    Ok(n > 1)
}

pub fn c03() {
    let mut c = Check::new("C03", "model_checking");
    c.rule("States are real sender and receiver streams plus packets in flight, merged by Debug text; every choice of message kind (plain, or 1..n fragments), every delivery order, copy and loss is explored; a message must be released exactly when its last fragment has arrived contiguously, as the concatenation of its fragments. A second search feeds a receiver every sequence of hostile headers up to a length.");
    c.assume("Fragmented messages are received with receive_and_merge on a stream with the same window limit, as the documentation asks.");
    let secs = pick(60.0, 260.0);
    let run = |c: &mut Check, name: &str, cfg: Cfg| {
        c.bfs(name, bfs::Limits { depth: 60, max_states: pick(500_000, 6_000_000), max_seconds: secs }, move || Frag::new(cfg));
    };
    run(&mut c, "window3", Cfg { window: 3, messages: pick(3, 4), net: 3, resends: 1, max_frags: 3 });
    run(&mut c, "window4", Cfg { window: 4, messages: pick(2, 3), net: 4, resends: 1, max_frags: 4 });
    run(&mut c, "unlimited", Cfg { window: usize::MAX, messages: 3, net: pick(3, 4), resends: 1, max_frags: 3 });
    if mclib::thorough() {
        run(&mut c, "window5", Cfg { window: 5, messages: 3, net: 5, resends: 1, max_frags: 4 });
    }
    for (w, seqs, steps) in pick(vec![(3, 4, 5), (5, 5, 4)], vec![(3, 5, 6), (5, 6, 5)]) {
        c.bfs(&format!("hostile_headers_window{w}"), bfs::Limits { depth: steps, max_states: 8_000_000, max_seconds: secs }, move || Hostile::new(w, seqs, steps));
    }
    let mut cases = vec![];
    for w in [15usize, 16, 17, 18, 33, 64, 65, 256, 257, 258, 300] {
        let sizes: Vec<usize> = if w <= 33 { (1..w).collect() } else { [1, 2, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, w - 2, w - 1].into_iter().filter(|n| *n < w).collect() };
        for n in sizes {
            let lost: Vec<usize> = if w <= 33 { (0..n + 2).collect() } else { vec![0, 1, 2, 16, 17, n / 2, n - 1, n, n + 1] };
            cases.extend(lost.into_iter().flat_map(|i| [(w, n, i, false), (w, n, i, true)]));
        }
    }
    for n in [300, 65_535, 65_536, 65_537] {
        cases.extend([(usize::MAX, n, 0, false), (usize::MAX, n, n, true), (usize::MAX, n, 1, true)]);
    }
    let n = cases.len() as u64;
    c.enumerate("large_messages", n, move |k| {
        let (w, n, i, b) = cases[k as usize];
        large(w, n, i, b)
    });
    c.finish();
}
