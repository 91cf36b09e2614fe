//! C36: the simulated network delivers each packet once, on time, or drops it for a stated reason.
//! C37: what is shared with WebRTC is released exactly once and crosses the boundary unchanged.
mod ffi;
mod sdp;
mod stats;

use std::{
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
    sync::{Arc, Mutex as RealMutex},
    time::Duration,
};

use mclib::{Check, ensure, json, pick};
use mcstd::{mc, thread};
use ringrtc::{
    common::{actor::Stopper, units::{DataRate, DataSize}},
    simnet::router::{LinkConfig, Packet, PacketReceiver, Router},
};

const MS: u64 = 1_000_000;

/// One delivered packet, and when.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Got {
    at: u64,
    iface: usize,
    source: SocketAddr,
    dest: SocketAddr,
    data: Vec<u8>,
}
#[derive(Clone, Default)]
struct Inbox(Arc<RealMutex<Vec<Got>>>);
impl Inbox {
    fn receiver(&self, iface: usize) -> Box<dyn PacketReceiver> {
        let i = self.0.clone();
        Box::new(move |p: Packet| {
            i.lock().unwrap().push(Got { at: mc::now(), iface, source: p.source, dest: p.dest, data: p.data })
        })
    }
    fn got(&self) -> Vec<Got> {
        self.0.lock().unwrap().clone()
    }
}
fn ip(i: usize, v6: bool) -> IpAddr {
    if v6 { IpAddr::V6(Ipv6Addr::new(0xfd00, 0, 0, 0, 0, 0, 0, i as u16 + 1)) } else { IpAddr::V4(Ipv4Addr::new(10, 0, 0, i as u8 + 1)) }
}
fn addr(i: usize, v6: bool) -> SocketAddr {
    SocketAddr::new(ip(i, v6), 1000 + i as u16)
}
fn payload(id: usize, len: usize) -> Vec<u8> {
    (0..len).map(|k| (id * 37 + k * 11 + len) as u8).collect()
}

/// What a link is configured to do, with the probabilities of loss all 0 or 1.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Cfg {
    delay_ms: u64,
    bps: u64,
    queue_bytes: u64,
    lose: bool,
    lose_again: bool,
}
const WIRE: Cfg = Cfg { delay_ms: 0, bps: 1_000_000_000, queue_bytes: 1 << 30, lose: false, lose_again: false };
fn config(c: Cfg, max_delay_ms: u64) -> LinkConfig {
    let p = |b: bool| if b { 1.0 } else { 0.0 };
    LinkConfig {
        delay_min: Duration::from_millis(c.delay_ms),
        delay_max: Duration::from_millis(max_delay_ms),
        loss_probability: p(c.lose),
        repeated_loss_probability: p(c.lose_again),
        rate: DataRate::from_bps(c.bps),
        queue_size: DataSize::from_bytes(c.queue_bytes),
    }
}
fn link(c: Cfg) -> LinkConfig {
    config(c, c.delay_ms)
}

/// The oracle for one link: which packets pass it, and when.  `arrivals` are (time, bytes with headers), in order.
/// `None`: dropped.  `tied`: two things that decide about a packet happen at the same time.
fn oracle(c: Cfg, arrivals: &[(u64, u64)], tied: &mut bool) -> Vec<Option<u64>> {
    let mut lost_before = false;
    let mut starts: Vec<(u64, u64)> = vec![]; // of the packets that were taken: (start of transmission, bytes)
    let mut free = 0;
    arrivals
        .iter()
        .map(|&(t, bytes)| {
            let lost = if lost_before { c.lose_again } else { c.lose };
            lost_before = lost;
            if lost {
                return None;
            }
            let at = t + c.delay_ms * MS;
            // what was taken and has not started yet
            let waiting: u64 = starts.iter().filter(|s| s.0 > at).map(|s| s.1).sum();
            *tied |= starts.iter().any(|s| s.0 == at);
            if waiting + bytes > c.queue_bytes {
                return None;
            }
            let start = at.max(free);
            starts.push((start, bytes));
            free = start + (bytes * 8) * 1_000_000_000 / c.bps;
            Some(free)
        })
        .collect()
}
fn headers(v6: bool) -> u64 {
    if v6 { 48 } else { 28 }
}

/// The packets of `n` moments through one send link and one receive link.
fn tandem(send: &[Cfg], receive: &[Cfg], gaps_us: &[u64], lens: &[usize], n: usize) {
    let (s, r) = (send[mc::choose(send.len())], receive[mc::choose(receive.len())]);
    let v6 = mc::choose_bool();
    let stopper = Stopper::new();
    let router = Router::start(&stopper).expect("router");
    let inbox = Inbox::default();
    router.add_interface(ip(0, v6), link(s), link(WIRE), inbox.receiver(0)).expect("interface");
    router.add_interface(ip(1, v6), link(WIRE), link(r), inbox.receiver(1)).expect("interface");
    mc::quiesce();
    let mut sent = vec![];
    let mut plan = vec![];
    for id in 0..n {
        // no two packets at the same time: what happens then is a matter of scheduling
        let gap = if id == 0 { 0 } else { gaps_us[mc::choose(gaps_us.len())] } + 7;
        let len = lens[mc::choose(lens.len())];
        thread::sleep(Duration::from_micros(gap));
        router.send_packet(Packet { source: addr(0, v6), dest: addr(1, v6), data: payload(id, len) });
        mc::quiesce();
        sent.push((mc::now(), len as u64 + headers(v6)));
        plan.push((gap, len));
    }
    mc::advance(Duration::from_secs(1000));
    let mut tied = false;
    let through = oracle(s, &sent, &mut tied);
    let second: Vec<(u64, u64)> = through.iter().zip(&sent).filter_map(|(t, s)| t.map(|t| (t, s.1))).collect();
    let mut out = oracle(r, &second, &mut tied).into_iter();
    let arrive: Vec<Option<u64>> = through.iter().map(|t| t.and_then(|_| out.next().unwrap())).collect();
    let want: Vec<(u64, usize)> = arrive.iter().enumerate().filter_map(|(i, t)| t.map(|t| (t, i))).collect();
    let got = inbox.got();
    if tied {
        // the order of simultaneous events is open
        mc::cover("simultaneous");
        assert!(got.len() <= n, "more packets arrived than were sent");
    } else {
        let text = || format!("send {s:?} receive {r:?} (gap us, bytes) {plan:?}: expected (ns, packet) {want:?}, got {:?}", got.iter().map(|g| (g.at, g.data.len())).collect::<Vec<_>>());
        assert_eq!(got.len(), want.len(), "{}", text());
        for (g, (t, id)) in got.iter().zip(&want) {
            assert!(g.at.abs_diff(*t) <= 100, "packet {id} arrived at {} instead of {t}: {}", g.at, text());
            assert_eq!((g.iface, g.source, g.dest), (1, addr(0, v6), addr(1, v6)));
            assert_eq!(g.data, payload(*id, plan[*id].1), "packet {id} was changed: {}", text());
        }
        mc::cover(if want.len() == n { "all_delivered" } else { "some_dropped" });
        for (i, a) in arrive.iter().enumerate() {
            if through[i].is_none() && !s.lose {
                mc::cover("send_queue_full");
            }
            if through[i].is_some() && a.is_none() && !r.lose {
                mc::cover("receive_queue_full");
            }
        }
    }
    mc::outcome(format!("{}", got.len()));
    stopper.stop_all_and_join();
}

/// Any sequence of adding interfaces and sending between them.
fn routing(steps: usize) {
    let stopper = Stopper::new();
    let router = Router::start(&stopper).expect("router");
    let inbox = Inbox::default();
    // interface number of the receiver that was added last, by address
    let mut owner: [Option<usize>; 3] = [None; 3];
    let mut added = 0;
    let mut want = vec![];
    let v6 = mc::choose_bool();
    for step in 0..steps {
        match mc::choose(12) {
            a @ 0..=2 => {
                router.add_interface(ip(a, v6), link(WIRE), link(WIRE), inbox.receiver(added)).expect("interface");
                owner[a] = Some(added);
                added += 1;
            }
            m => {
                let (s, d) = ((m - 3) / 3, (m - 3) % 3);
                // the port is no part of the route
                let (source, dest) = (addr(s, v6), SocketAddr::new(ip(d, v6), step as u16));
                router.send_packet(Packet { source, dest, data: payload(step, 5) });
                match (owner[s], owner[d]) {
                    (Some(_), Some(i)) => {
                        want.push((i, source, dest, payload(step, 5)));
                        mc::cover(if s == d { "to_oneself" } else { "routed" });
                    }
                    (None, _) => mc::cover("unknown_source"),
                    (_, None) => mc::cover("unknown_dest"),
                }
            }
        }
        mc::advance(Duration::from_millis(1));
    }
    let got: Vec<_> = inbox.got().into_iter().map(|g| (g.iface, g.source, g.dest, g.data)).collect();
    assert_eq!(got, want, "packets went elsewhere");
    mc::outcome(format!("{}", got.len()));
    stopper.stop_all_and_join();
    assert_eq!(mc::live_threads(), 1, "threads of the network survive its stop");
}

/// A delay between a minimum and a maximum.
fn jitter() {
    let min = mc::choose(4) as u64;
    let max = min + mc::choose(4) as u64;
    let stopper = Stopper::new();
    let router = Router::start(&stopper).expect("router");
    let inbox = Inbox::default();
    let c = Cfg { delay_ms: min, ..WIRE };
    router.add_interface(ip(0, false), config(c, max), link(WIRE), inbox.receiver(0)).expect("interface");
    router.add_interface(ip(1, false), link(WIRE), link(WIRE), inbox.receiver(1)).expect("interface");
    mc::quiesce();
    let mut sent = vec![];
    for id in 0..12 {
        thread::sleep(Duration::from_millis(20));
        sent.push(mc::now());
        router.send_packet(Packet { source: addr(0, false), dest: addr(1, false), data: payload(id, 1) });
    }
    mc::advance(Duration::from_secs(1));
    let got = inbox.got();
    assert_eq!(got.len(), 12, "a packet was lost on links that lose nothing");
    for (g, t) in got.iter().zip(&sent) {
        let d = g.at - t;
        assert!(d >= min * MS && d <= max * MS + 2000, "a delay of {d} ns where {min} to {max} ms was configured");
    }
    mc::cover(if min == max { "constant_delay" } else { "varying_delay" });
    mc::outcome(format!("{:?}", got.iter().zip(&sent).map(|(g, t)| (g.at - t) / MS).collect::<Vec<_>>()));
    stopper.stop_all_and_join();
}

/// Several threads send at once; `stop`: and the network is stopped meanwhile.
fn at_once(senders: usize, each: usize, stop: bool) {
    let stopper = Stopper::new();
    mc::set_deviations(false);
    let router = Router::start(&stopper).expect("router");
    let inbox = Inbox::default();
    let slow = Cfg { bps: 1_000_000, ..WIRE };
    for i in 0..3 {
        router.add_interface(ip(i, false), link(WIRE), link(slow), inbox.receiver(i)).expect("interface");
    }
    mc::quiesce();
    mc::set_deviations(true);
    let hs: Vec<_> = (0..senders)
        .map(|s| {
            let router = router.clone();
            thread::spawn(move || {
                for k in 0..each {
                    router.send_packet(Packet { source: addr(s, false), dest: addr(2, false), data: payload(s * 10 + k, 4 + k) });
                }
            })
        })
        .collect();
    if stop {
        // before, during and after the transmissions
        thread::sleep(Duration::from_micros([0, 150, 400, 700][mc::choose(4)]));
        stopper.stop_all_and_join();
    }
    for h in hs {
        h.join().unwrap();
    }
    mc::advance(Duration::from_secs(1));
    let got = inbox.got();
    for s in 0..senders {
        let of: Vec<&Got> = got.iter().filter(|g| g.source == addr(s, false)).collect();
        let sent: Vec<Vec<u8>> = (0..each).map(|k| payload(s * 10 + k, 4 + k)).collect();
        let mut rest = sent.iter();
        for g in &of {
            assert!(rest.any(|p| *p == g.data), "packets of {s} were repeated, changed or reordered: {:?}", of);
        }
        assert!(stop || of.len() == each, "of {each} packets of {s}, {} arrived", of.len());
        assert!(of.iter().all(|g| g.iface == 2 && g.dest == addr(2, false)));
    }
    mc::cover(if got.len() == senders * each { "all" } else if got.is_empty() { "none" } else { "some" });
    // one link transmits one packet at a time
    for w in got.windows(2) {
        let need = (w[1].data.len() as u64 + 28) * 8 * 1000;
        assert!(w[1].at + 100 >= w[0].at + need, "two packets were transmitted at once: {got:?}");
    }
    if !stop {
        stopper.stop_all_and_join();
    }
    drop(router);
    assert_eq!(mc::live_threads(), 1, "threads of the network survive its stop");
    mc::outcome(format!("{:?}", got.iter().map(|g| g.data[0]).collect::<Vec<_>>()));
}

fn units(c: &mut Check) {
    let grid: Vec<u64> = {
        let mut g: Vec<u64> = (0..2100).collect();
        for b in 11..40u32 {
            let p = 1u64 << b;
            g.extend([p - 1, p, p + 1, p + p / 3]);
        }
        for d in 4..11u32 {
            let p = 10u64.pow(d);
            g.extend([p - 1, p, p + 1, p * 3, p * 8 - 1, p * 8]);
        }
        g
    };
    let n = grid.len() as u64;
    c.enumerate("units", n, |i| {
        let v = grid[i as usize];
        let bits: [(&str, u64, DataSize); 7] = [
            ("bits", v, DataSize::from_bits(v)),
            ("bytes", v * 8, DataSize::from_bytes(v)),
            ("kilobits", v * 1000, DataSize::from_kilobits(v)),
            ("kilobytes", v * 8000, DataSize::from_kilobytes(v)),
            ("megabits", v * 1_000_000, DataSize::from_megabits(v)),
            ("megabytes", v * 8_000_000, DataSize::from_megabytes(v)),
            ("none", 0, DataSize::default()),
        ];
        for (unit, b, s) in bits {
            let got = [s.as_bits(), s.as_bytes(), s.as_kilobits(), s.as_kilobytes(), s.as_megabits(), s.as_megabytes()];
            let want = [b, b / 8, b / 1000, b / 8000, b / 1_000_000, b / 8_000_000];
            ensure!(got == want, "{v} {unit} are {got:?} bits, bytes, kilobits, kilobytes, megabits, megabytes");
            let r = s.per_second();
            ensure!(r == DataRate::per_second(s) && r.as_bps() == b && r.as_kbps() == b / 1000 && r.as_mbps() == b / 1_000_000,
                "{v} {unit} per second are {r:?}");
        }
        ensure!(DataRate::from_bps(v).as_bps() == v && DataRate::from_kbps(v).as_bps() == v * 1000 && DataRate::from_mbps(v).as_bps() == v * 1_000_000, "the rate {v} is read differently");
        Ok(true)
    });
    let small: Vec<u64> = grid.iter().copied().filter(|v| v % 97 < 3 || *v < 20).collect();
    let m = small.len() as u64;
    c.enumerate("arithmetic", m * m, |i| {
        let (a, b) = (small[(i / m) as usize], small[(i % m) as usize]);
        let (sa, sb) = (DataSize::from_bits(a), DataSize::from_bits(b));
        ensure!(sa + sb == DataSize::from_bits(a + b), "{a} + {b} bits");
        ensure!((sa < sb) == (a < b) && (sa == sb) == (a == b), "the sizes {a} and {b} compare wrongly");
        let (ra, rb) = (DataRate::from_bps(a), DataRate::from_bps(b));
        ensure!((ra < rb) == (a < b), "the rates {a} and {b} compare wrongly");
        ensure!(ra.min_opt(Some(rb)).as_bps() == a.min(b) && ra.min_opt(None) == ra, "the lower of {a} and {b}");
        let close = |x: u128, y: u128| x.abs_diff(y) <= 1 + y / 1_000_000_000_000;
        if b > 0 && a / b < 1 << 40 {
            // the time `a` bits take at `b` bits per second
            let t: Duration = sa / rb;
            ensure!(close(t.as_nanos(), a as u128 * 1_000_000_000 / b as u128), "{a} bits at {b} bps take {t:?}");
            // and back: over a time of b microseconds
            let d = Duration::from_micros(b);
            ensure!(close((sa / d).as_bps() as u128, a as u128 * 1_000_000 / b as u128), "{a} bits in {d:?} are {:?}", sa / d);
        }
        let d = Duration::from_millis(b);
        if let Some(p) = a.checked_mul(b) {
            ensure!(close((ra * d).as_bits() as u128, p as u128 / 1000), "{a} bps over {d:?} are {:?}", ra * d);
        }
        Ok(true)
    });
}

fn c36() {
    let mut c = Check::new("C36", "model_checking");
    c.rule("Every combination of link configuration, packet sizes and gaps of the stated grids, against a discrete-event oracle of two links in a row; every sequence of adding interfaces and sending between them; every schedule within the deviation bound of threads that send, and of one that stops the network; every pair of a grid of sizes, rates and durations.");
    c.assume("Losses are enumerated with probabilities 0 and 1; virtual time (mcstd), so that transmission takes exactly as long as computed.");
    c.assume("Where two events that decide about a packet coincide, either order is accepted.");
    let one = |name: &str, c: &mut Check, f: &(dyn Fn() + Sync)| {
        c.schedules(name, &mc::Config { bound: 0, max_seconds: pick(120, 900), max_steps: 500_000, ..Default::default() }, f);
    };
    let base = Cfg { delay_ms: 3, bps: 1_000_000, queue_bytes: 400, lose: false, lose_again: false };
    let sends = [
        base,
        Cfg { queue_bytes: 128, ..base },
        Cfg { queue_bytes: 147, bps: 500_000, ..base },
        Cfg { delay_ms: 0, queue_bytes: 300, bps: 250_000, ..base },
    ];
    let receives = [
        Cfg { delay_ms: 1, bps: 300_000, queue_bytes: 260, ..base },
        Cfg { delay_ms: 5, bps: 2_000_000, queue_bytes: 100_000, ..base },
    ];
    let n = pick(4, 5);
    one("queues", &mut c, &|| tandem(&sends, &receives, &[0, 611, 1700], &[0, 100, 220], n));
    let lossy: Vec<Cfg> = [(false, false), (true, false), (false, true), (true, true)].iter().map(|&(lose, lose_again)| Cfg { lose, lose_again, ..base }).collect();
    // large packets on slow links, small ones on fast links, and delays of more than a minute
    let wide = Cfg { queue_bytes: 1 << 20, ..base };
    let sends_far = [
        Cfg { bps: 64_000, ..wide },
        Cfg { delay_ms: 70_001, bps: 10_000_000_000, ..wide },
        Cfg { delay_ms: 4_000, bps: 300_000, queue_bytes: 140_000, ..wide },
        Cfg { delay_ms: 65_535, bps: 4_294_967_297, queue_bytes: 5_000_000_000, ..wide },
    ];
    let receives_far = [Cfg { delay_ms: 255, bps: 128_000, queue_bytes: 66_000, ..wide }, Cfg { delay_ms: 131_072, bps: 5_000_000_000, ..wide }];
    let n = pick(3, 4);
    one("large_and_late", &mut c, &|| tandem(&sends_far, &receives_far, &[0, 2_000_011, 61_000_003], &[1400, 65_509, 65_536, 200_000], n));
    let n = pick(5, 7);
    one("losses", &mut c, &|| tandem(&lossy, &lossy, &[900], &[1, 60], n));
    let n = pick(4, 5);
    one("routing", &mut c, &|| routing(n));
    one("jitter", &mut c, &jitter);
    let b = pick(2, 3);
    let cfg = mc::Config { bound: b, max_seconds: pick(60, 600), ..Default::default() };
    c.schedules("two_senders", &cfg, &|| at_once(2, 2, false));
    c.schedules("stopped_meanwhile", &mc::Config { bound: b - 1, ..cfg }, &|| at_once(1, 2, true));
    units(&mut c);
    c.sample(json!({"harnesses": 9}));
    c.finish();
}

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C36" => c36(),
        "C37" => ffi::c37(),
        "C38" => sdp::c38(),
        "C39" => stats::c39(),
        x => mclib::die(&format!("unknown property {x}")),
    }
}
