//! C37: what is shared with WebRTC is released exactly once and crosses the boundary unchanged.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    ffi::{CStr, c_void},
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
    os::raw::c_char,
};

use mclib::{Check, ensure, json, pick};
use mcstd::mc;
use ringrtc::webrtc::{
    self, Arc, RefCounted,
    injectable_network::{InjectableNetwork, Packet, RffiInjectableNetwork},
    media::{AudioBandwidth, AudioEncoderConfig, AudioTrack, VideoFrame, VideoFrameMetadata, VideoPixelFormat, VideoTrack},
    network::{NetworkInterfaceType, RffiIp, RffiIpPort},
    peer_connection::PeerConnection,
    peer_connection_factory::{AudioConfig, AudioJitterBufferConfig, IceServer, PeerConnectionFactory, RffiIceServer},
    ptr::{Borrowed, BorrowedRc, Delete, Owned, OwnedRc, Unique},
    rtp::Header,
    sim::ref_count,
};

thread_local! {
    /// Every reference taken and given back on this thread: (object, +1 or -1), in order.
    static REFS: RefCell<Vec<(usize, i32)>> = const { RefCell::new(vec![]) };
    static DELETED: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
}
fn listen() {
    ref_count::listen(|at, by| REFS.with(|r| r.borrow_mut().push((at, by))));
}
fn count(at: usize, from: usize) -> i32 {
    REFS.with(|r| r.borrow()[from..].iter().filter(|x| x.0 == at).map(|x| x.1).sum())
}
fn mark() -> usize {
    REFS.with(|r| r.borrow().len())
}

struct Obj(#[allow(dead_code)] u64);
impl RefCounted for Obj {}
struct Del(#[allow(dead_code)] u64);
impl Delete for Del {
    fn delete(owned: Owned<Self>) {
        DELETED.with(|d| d.borrow_mut().push(owned.as_ptr() as usize));
    }
}

/// Any sequence of what one can do with shared references, in two places, of up to three objects: what an object
/// has been given back never exceeds what was taken, and what is held is what is left.
fn references(steps: usize) {
    let base = mark();
    let objs = [Obj(1), Obj(2), Obj(3)];
    let at = |o: usize| &objs[o] as *const Obj;
    let mut owned = [0i32; 3]; // references WebRTC gave us
    let mut next = 0;
    let mut slot: [Arc<Obj>; 2] = [Arc::null(), Arc::null()];
    let mut model: [Option<usize>; 2] = [None, None];
    let mut raw: Vec<(usize, OwnedRc<Obj>)> = vec![];
    let mut text = vec![];
    for _ in 0..steps {
        // what would change or show something here
        let useful: Vec<(usize, usize)> = (0..18).map(|k| (k / 2, k % 2)).filter(|&(op, i)| match op {
            0 => next < 3,
            1 | 3 => model[0].is_some() || model[1].is_some(),
            2 | 4 | 5 => model[i].is_some() || (model[1 - i].is_none() && raw.is_empty()),
            6 => !raw.is_empty(),
            7 => i == 0 && model[0] != model[1],
            _ => model[i].is_some(),
        }).collect();
        let (op, i) = useful[mc::choose(useful.len())];
        let j = 1 - i;
        text.push((op, i));
        match op {
            // WebRTC hands us a reference to a new object
            0 if next < 3 => {
                slot[i] = Arc::from_owned(unsafe { OwnedRc::from_ptr(at(next)) });
                owned[next] += 1;
                model[i] = Some(next);
                next += 1;
            }
            1 => {
                slot[j] = slot[i].clone();
                model[j] = model[i];
            }
            2 => {
                slot[i] = Arc::null();
                model[i] = None;
            }
            // lent by WebRTC, kept by us
            3 => {
                slot[j] = unsafe { Arc::from_borrowed(slot[i].as_borrowed()) };
                model[j] = model[i];
            }
            // handed over to WebRTC
            4 => {
                let o = slot[i].take_owned();
                match model[i].take() {
                    Some(m) => {
                        assert!(std::ptr::eq(o.as_ptr(), at(m)));
                        raw.push((m, o));
                    }
                    None => assert!(o.is_null()),
                }
            }
            5 => {
                let o = std::mem::replace(&mut slot[i], Arc::null()).into_owned();
                match model[i].take() {
                    Some(m) => {
                        assert!(std::ptr::eq(o.as_ptr(), at(m)));
                        raw.push((m, o));
                    }
                    None => assert!(o.is_null()),
                }
            }
            // taken back
            6 => {
                if let Some((m, mut o)) = raw.pop() {
                    let o2 = if i == 0 { o.take() } else { o };
                    slot[i] = Arc::from_owned(o2);
                    model[i] = Some(m);
                }
            }
            7 => {
                slot.swap(0, 1);
                model.swap(0, 1);
            }
            8 => {
                // looking at it takes nothing
                let b: BorrowedRc<Obj> = slot[i].as_borrowed();
                let c = b;
                assert_eq!(b.is_null(), slot[i].is_null());
                assert!(std::ptr::eq(b.as_ptr(), c.as_ptr()));
                let _ = (format!("{:?} {:?}", slot[i], b), unsafe { slot[i].as_ref().is_some() });
            }
            _ => {}
        }
        for k in 0..2 {
            match model[k] {
                Some(m) => {
                    assert!(!slot[k].is_null() && std::ptr::eq(slot[k].as_borrowed().as_ptr(), at(m)), "{text:?}: place {k} refers to something else");
                    assert!(unsafe { slot[k].as_ref() }.is_some_and(|o| std::ptr::eq(o, at(m))));
                }
                None => assert!(slot[k].is_null() && unsafe { slot[k].as_ref() }.is_none(), "{text:?}: place {k} is not empty"),
            }
        }
        for o in 0..next {
            let held = model.iter().filter(|m| **m == Some(o)).count() + raw.iter().filter(|r| r.0 == o).count();
            let left = owned[o] + count(at(o) as usize, base);
            assert_eq!(left, held as i32, "{text:?}: object {o} has {left} references where {held} are held");
        }
    }
    for (_, o) in raw {
        drop(Arc::from_owned(o));
    }
    drop(slot);
    for o in 0..next {
        let left = owned[o] + count(at(o) as usize, base);
        assert_eq!(left, 0, "{text:?}: object {o} is left with {left} references");
    }
    mc::cover(if next > 1 { "several_objects" } else { "few_objects" });
}

/// The same for what has one owner, and is deleted by it.
fn unique(steps: usize) {
    DELETED.with(|d| d.borrow_mut().clear());
    let objs = [Del(1), Del(2)];
    let at = |o: usize| &objs[o] as *const Del;
    let mut next = 0;
    let mut slot: [Unique<Del>; 2] = [Unique::null(), Unique::null()];
    let mut model: [Option<usize>; 2] = [None, None];
    let mut raw: Vec<(usize, Owned<Del>)> = vec![];
    let mut gone: Vec<usize> = vec![];
    let mut text = vec![];
    for _ in 0..steps {
        let useful: Vec<(usize, usize)> = (0..14).map(|k| (k / 2, k % 2)).filter(|&(op, i)| match op {
            0 => next < 2,
            1 => model[0].is_some() || model[1].is_some(),
            2 | 3 | 4 => model[i].is_some() || (model[1 - i].is_none() && raw.is_empty()),
            5 => !raw.is_empty(),
            _ => i == 0 && model[0] != model[1],
        }).collect();
        if useful.is_empty() {
            break;
        }
        let (op, i) = useful[mc::choose(useful.len())];
        let j = 1 - i;
        text.push((op, i));
        let put = |slot: &mut [Unique<Del>; 2], model: &mut [Option<usize>; 2], gone: &mut Vec<usize>, k: usize, v: Unique<Del>, m: Option<usize>| {
            gone.extend(model[k]);
            slot[k] = v;
            model[k] = m;
        };
        match op {
            0 if next < 2 => {
                put(&mut slot, &mut model, &mut gone, i, Unique::from(unsafe { Owned::from_ptr(at(next)) }), Some(next));
                next += 1;
            }
            1 => {
                let (v, m) = (slot[i].take(), model[i].take());
                put(&mut slot, &mut model, &mut gone, j, v, m);
            }
            2 => put(&mut slot, &mut model, &mut gone, i, Unique::null(), None),
            3 => {
                let o = slot[i].take_owned();
                match model[i].take() {
                    Some(m) => raw.push((m, o)),
                    None => assert!(o.is_null()),
                }
            }
            4 => {
                let o = std::mem::replace(&mut slot[i], Unique::null()).into_owned();
                match model[i].take() {
                    Some(m) => raw.push((m, o)),
                    None => assert!(o.is_null()),
                }
            }
            5 => {
                if let Some((m, mut o)) = raw.pop() {
                    assert!(o.as_mut().is_some() && o.as_ref().is_some() && !o.borrow().is_null());
                    let o2 = o.take();
                    assert!(o.is_null() && std::ptr::eq(o2.as_ptr(), at(m)));
                    put(&mut slot, &mut model, &mut gone, i, Unique::from(o2), Some(m));
                }
            }
            _ => {
                slot.swap(0, 1);
                model.swap(0, 1);
            }
        }
        for k in 0..2 {
            let want = model[k].map_or(std::ptr::null(), at);
            assert!(std::ptr::eq(slot[k].borrow().as_ptr(), want), "{text:?}: place {k} holds something else");
            assert!(slot[k].is_null() == want.is_null() && slot[k].as_ref().is_some() == !want.is_null() && slot[k].as_mut().is_some() == !want.is_null());
        }
        let deleted: Vec<usize> = DELETED.with(|d| d.borrow().clone());
        assert_eq!(deleted, gone.iter().map(|g| at(*g) as usize).collect::<Vec<_>>(), "{text:?}: deleted something else than what was given up ({gone:?})");
    }
    let kept: Vec<usize> = model.iter().flatten().copied().collect();
    drop(slot);
    let mut deleted: Vec<usize> = DELETED.with(|d| d.borrow().clone());
    deleted.sort();
    let mut want: Vec<usize> = gone.iter().chain(&kept).map(|g| at(*g) as usize).collect();
    want.sort();
    assert_eq!(deleted, want, "{text:?}");
    mc::cover(if deleted.is_empty() { "nothing_deleted" } else { "deleted" });
}

/// What belongs to the peer connection factory is released before the factory is.
fn owners(i: u64) -> Result<bool, String> {
    let (what, with_owner, copies, first) = (i % 3, i / 3 % 2 == 1, (i / 6 % 3) as usize, (i / 18) as usize);
    let base = mark();
    let owner = Box::new(7u32);
    let thing = Box::new(8u32);
    let pc = webrtc::peer_connection::RffiPeerConnection::new();
    let factory: Arc<u32> = Arc::from_owned(unsafe { OwnedRc::from_ptr(&*owner) });
    let o = with_owner.then(|| factory.clone());
    drop(factory);
    let at_owner = &*owner as *const u32 as usize;
    let at_thing = if what == 2 { &pc as *const _ as usize } else { &*thing as *const u32 as usize };
    let mut n = vec![];
    match what {
        0 => {
            let t = AudioTrack::new(Arc::from_owned(unsafe { OwnedRc::from_ptr(&*thing) }), o);
            let mut c: Vec<_> = (0..copies).map(|_| t.clone()).collect();
            c.push(t);
            c.swap(0, first.min(copies));
            for t in c { drop(t); n.push((count(at_thing, base), count(at_owner, base))) }
        }
        1 => {
            let t = VideoTrack::new(Arc::from_owned(unsafe { OwnedRc::from_ptr(&*thing) }), o);
            let mut c: Vec<_> = (0..copies).map(|_| t.clone()).collect();
            c.push(t);
            c.swap(0, first.min(copies));
            for t in c { drop(t); n.push((count(at_thing, base), count(at_owner, base))) }
        }
        _ => {
            let t = PeerConnection::new(Arc::from_owned(unsafe { OwnedRc::from_ptr(&pc) }), None, o);
            drop(t);
            n.push((count(at_thing, base), count(at_owner, base)));
        }
    }
    // one reference came with the thing and one with the owner
    ensure!(count(at_thing, base) == -1 && count(at_owner, base) == -1,
        "kind {what}, {copies} copies, owner {with_owner}: given back {} times and its owner {} times more than taken", -count(at_thing, base), -count(at_owner, base));
    if with_owner {
        let last = |at: usize| REFS.with(|r| r.borrow().iter().rposition(|x| *x == (at, -1)));
        ensure!(last(at_thing) < last(at_owner), "kind {what}, {copies} copies: the factory was released before what it owns");
        let _ = n;
    }
    Ok(with_owner)
}

fn v6s() -> Vec<Ipv6Addr> {
    let mut v = vec![Ipv6Addr::UNSPECIFIED, Ipv6Addr::LOCALHOST, "::ffff:1.2.3.4".parse().unwrap(), "::1.2.3.4".parse().unwrap(), "fe80::1".parse().unwrap(), "2001:db8:1:2:3:4:5:6".parse().unwrap()];
    for b in 0..16 {
        for x in [0x01u8, 0x7f, 0x80, 0xff] {
            let mut o = [0u8; 16];
            o[b] = x;
            v.push(o.into());
            let mut o: [u8; 16] = std::array::from_fn(|i| i as u8 + 1);
            o[b] = x;
            v.push(o.into());
        }
    }
    v
}
/// The layout WebRTC's side reads.
fn bytes_of<T>(t: &T) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()) }.to_vec()
}
fn expect_ip(ip: IpAddr) -> Vec<u8> {
    let mut w = vec![ip.is_ipv6() as u8];
    match ip {
        IpAddr::V4(v) => w.extend(v.octets().iter().copied().chain([0; 12])),
        IpAddr::V6(v) => w.extend(v.octets()),
    }
    w
}

// --- WebRTC's injectable network ---------------------------------------------------------------------------------
type SendUdp = extern "C" fn(*const c_void, RffiIpPort, RffiIpPort, *const u8, usize);
type DeleteSender = extern "C" fn(*const c_void);
#[repr(C)]
#[derive(Clone, Copy)]
struct Sender {
    object: *const c_void,
    send_udp: SendUdp,
    delete: DeleteSender,
}
thread_local! {
    static SENDER: RefCell<Vec<Sender>> = const { RefCell::new(vec![]) };
    static TOLD: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
fn told(s: String) {
    TOLD.with(|t| t.borrow_mut().push(s));
}
#[unsafe(no_mangle)]
#[allow(non_snake_case)]
unsafe extern "C" fn Rust_InjectableNetwork_SetSender(n: *const RffiInjectableNetwork, sender: *const c_void) {
    // the caller's copy is gone when this returns
    let s = unsafe { *(sender as *const Sender) };
    SENDER.with(|x| x.borrow_mut().push(s));
    told(format!("sender {}", n as usize));
}
#[unsafe(no_mangle)]
#[allow(non_snake_case)]
unsafe extern "C" fn Rust_InjectableNetwork_AddInterface(n: *const RffiInjectableNetwork, name: *const c_char, typ: u32, ip: RffiIp, preference: u16) {
    told(format!("add {} {:?} {typ} {} {preference}", n as usize, unsafe { CStr::from_ptr(name) }, ip.ip()));
}
#[unsafe(no_mangle)]
#[allow(non_snake_case)]
unsafe extern "C" fn Rust_InjectableNetwork_RemoveInterface(n: *const RffiInjectableNetwork, name: *const c_char) {
    told(format!("remove {} {:?}", n as usize, unsafe { CStr::from_ptr(name) }));
}
#[unsafe(no_mangle)]
#[allow(non_snake_case)]
unsafe extern "C" fn Rust_InjectableNetwork_ReceiveUdp(n: *const RffiInjectableNetwork, source: RffiIpPort, dest: RffiIpPort, data: *const u8, size: usize) {
    let data = unsafe { std::slice::from_raw_parts(data, size) };
    told(format!("receive {} {} {} {data:?}", n as usize, source.socket_addr(), dest.socket_addr()));
}
struct Alive(std::rc::Rc<RefCell<Vec<String>>>);
impl Drop for Alive {
    fn drop(&mut self) {
        self.0.borrow_mut().push("dropped".into());
    }
}

fn injected(i: u64) -> Result<bool, String> {
    let addrs = [
        SocketAddr::from(([10, 0, 0, 1], 1)),
        SocketAddr::from(([255, 254, 1, 2], 65535)),
        SocketAddr::from((Ipv6Addr::new(0xfd00, 1, 2, 3, 4, 5, 6, 0x0708), 258)),
        SocketAddr::from((Ipv6Addr::LOCALHOST, 0)),
    ];
    let (s, d) = (addrs[(i % 4) as usize], addrs[(i / 4 % 4) as usize]);
    let data: Vec<u8> = (0..[0usize, 1, 2, 255, 1500, 2049, 9001, 65_507, 65_536, 70_001][(i / 16 % 10) as usize]).map(|k| (k * 7 + i as usize) as u8).collect();
    let at = 4096 + 16 * i as usize;
    let owner = Box::new(3u32);
    let base = mark();
    TOLD.with(|t| t.borrow_mut().clear());
    SENDER.with(|t| t.borrow_mut().clear());
    let net = InjectableNetwork::new(Borrowed::from_ptr(at as *const RffiInjectableNetwork), Arc::from_owned(unsafe { OwnedRc::from_ptr(&*owner) }));
    let log = std::rc::Rc::new(RefCell::new(vec![]));
    let alive = Alive(log.clone());
    net.set_sender(Box::new(move |p: Packet| alive.0.borrow_mut().push(format!("{} {} {:?}", p.source, p.dest, p.data))));
    let sender = SENDER.with(|x| x.borrow().clone());
    ensure!(sender.len() == 1, "the sender was set {} times", sender.len());
    let other = net.clone();
    drop(net);
    let types = [(NetworkInterfaceType::Unknown, 0), (NetworkInterfaceType::Ethernet, 1), (NetworkInterfaceType::Wifi, 2), (NetworkInterfaceType::Cellular, 4), (NetworkInterfaceType::Vpn, 8), (NetworkInterfaceType::Loopback, 16), (NetworkInterfaceType::Any, 32)];
    let mut want = vec![format!("sender {at}")];
    for (t, n) in types {
        other.add_interface("wifi0", t, s.ip(), 7 + n as u16);
        want.push(format!("add {at} {:?} {n} {} {}", c"wifi0", s.ip(), 7 + n));
    }
    other.remove_interface("eth1");
    want.push(format!("remove {at} {:?}", c"eth1"));
    other.receive_udp(Packet { source: s, dest: d, data: data.clone() });
    want.push(format!("receive {at} {s} {d} {data:?}"));
    let got = TOLD.with(|t| t.borrow().clone());
    ensure!(got == want, "WebRTC was told {got:?} instead of {want:?}");
    let mut buffer = data.clone();
    for _ in 0..2 {
        (sender[0].send_udp)(sender[0].object, s.into(), d.into(), buffer.as_ptr(), buffer.len());
    }
    // the buffer was WebRTC's
    buffer.fill(0xEE);
    ensure!(*log.borrow() == vec![format!("{s} {d} {data:?}"); 2], "WebRTC sent {data:?} from {s} to {d}, and the application got {:?}", log.borrow());
    (sender[0].delete)(sender[0].object);
    ensure!(log.borrow().iter().filter(|l| *l == "dropped").count() == 1, "the sender was not dropped exactly once");
    drop(other);
    ensure!(count(&*owner as *const u32 as usize, base) == -1, "the network's hold on the factory was given back {} times", -count(&*owner as *const u32 as usize, base));
    Ok(true)
}

// --- lists and configurations ------------------------------------------------------------------------------------
unsafe fn read(s: &RffiIceServer) -> (String, String, String, Vec<String>) {
    let c = |p: Borrowed<c_char>| unsafe { CStr::from_ptr(p.as_ptr()) }.to_str().unwrap().to_string();
    (c(s.username), c(s.password), c(s.hostname), (0..s.urls_size).map(|i| c(unsafe { *s.urls.as_ptr().add(i) })).collect())
}
fn addresses_of(s: &RffiIceServer) -> Vec<usize> {
    let mut v = vec![s.username.as_ptr() as usize, s.password.as_ptr() as usize, s.hostname.as_ptr() as usize];
    v.extend((0..s.urls_size).map(|i| unsafe { *s.urls.as_ptr().add(i) }.as_ptr() as usize));
    v
}
fn ice_servers(i: u64) -> Result<bool, String> {
    let texts = ["", "u", "turn:1.example.org?transport=udp", "näme"];
    let t = |k: u64| texts[(k % 4) as usize].to_string();
    let urls: Vec<String> = (0..i / 64 % 4).map(|k| format!("{}{k}", t(k + i / 256))).collect();
    let want = (t(i), t(i / 4), t(i / 16), urls.clone());
    let server = IceServer::new(want.0.clone(), want.1.clone(), want.2.clone(), urls);
    ensure!(unsafe { read(&server.rffi()) } == want, "WebRTC gets {:?} for {want:?}", unsafe { read(&server.rffi()) });
    // copies, and places it is moved to
    let copy = server.clone();
    let shared: Vec<usize> = addresses_of(&copy.rffi()).into_iter().filter(|a| addresses_of(&server.rffi()).contains(a)).collect();
    ensure!(shared.is_empty(), "a copy of an ICE server refers to {} strings of the original, which may be gone before it (urls {:?})", shared.len(), want.3);
    ensure!(unsafe { read(&copy.rffi()) } == want, "WebRTC gets {:?} for a copy of {want:?}", unsafe { read(&copy.rffi()) });
    let moved = Box::new(server);
    ensure!(unsafe { read(&moved.rffi()) } == want, "moved");
    drop(moved);
    let again = vec![copy.clone(), copy];
    ensure!(again.iter().all(|c| unsafe { read(&c.rffi()) } == want), "copies of copies of {want:?} differ");
    let none = IceServer::none();
    ensure!(unsafe { read(&none.rffi()) } == Default::default() && none.rffi().urls_size == 0, "no server is {:?}", unsafe { read(&none.rffi()) });
    Ok(!want.3.is_empty())
}

#[repr(C)]
struct Encoder {
    packet: [i32; 3],
    bitrate: [i32; 3],
    bandwidth: i32,
    complexity: i32,
    adaptation: i32,
    cbr: bool,
    dtx: bool,
    fec: bool,
    dred: i32,
    loss: i32,
    weights: *const c_void,
    weights_len: i32,
}
fn encoder(i: u64) -> Result<bool, String> {
    let bands = [(AudioBandwidth::Auto, -1000), (AudioBandwidth::Full, 1105), (AudioBandwidth::SuperWide, 1104), (AudioBandwidth::Wide, 1103), (AudioBandwidth::Medium, 1102), (AudioBandwidth::Narrow, 1101)];
    let band = bands[(i / 8 % 6) as usize];
    let weights = [None, Some(vec![]), Some(vec![1u8, 2, 3]), Some(vec![4; 65_537]), Some(vec![5; 3 << 20])][(i / 48 % 5) as usize].clone().map(|w| mcstd::sync::Arc::new(w));
    let c = AudioEncoderConfig {
        initial_packet_size_ms: 20, min_packet_size_ms: 10, max_packet_size_ms: 120,
        initial_bitrate_bps: 32001, min_bitrate_bps: 6002, max_bitrate_bps: 510_003,
        bandwidth: band.0, complexity: (i % 256) as u8, adaptation: 5 - i as i32,
        enable_cbr: i & 1 == 1, enable_dtx: i & 2 != 0, enable_fec: i & 4 != 0,
        dred_duration: (i % 255) as u8, min_packet_loss_percent: (255 - i % 254) as u8,
        dnn_weights: weights.clone(),
    };
    let r = c.rffi();
    ensure!(std::mem::size_of_val(&r) == std::mem::size_of::<Encoder>(), "the encoder configuration has another layout");
    let e = unsafe { &*(&r as *const _ as *const Encoder) };
    ensure!((e.packet, e.bitrate) == ([20, 10, 120], [32001, 6002, 510_003]), "sizes {:?} and rates {:?}", e.packet, e.bitrate);
    ensure!((e.bandwidth, e.complexity, e.adaptation) == (band.1, (i % 256) as i32, 5 - i as i32), "bandwidth {} complexity {} adaptation {}", e.bandwidth, e.complexity, e.adaptation);
    ensure!((e.cbr, e.dtx, e.fec) == (i & 1 == 1, i & 2 != 0, i & 4 != 0), "cbr {} dtx {} fec {}", e.cbr, e.dtx, e.fec);
    ensure!((e.dred, e.loss) == ((i % 255) as i32, 255 - (i % 254) as i32), "dred {} loss {}", e.dred, e.loss);
    match &weights {
        None => ensure!(e.weights.is_null() && e.weights_len == 0, "weights out of nowhere"),
        Some(w) => ensure!(std::ptr::eq(e.weights, w.as_ptr() as *const c_void) && e.weights_len as usize == w.len(), "other weights"),
    }
    Ok(true)
}

fn frames(i: u64) -> Result<bool, String> {
    let (rot, null) = ([0u32, 90, 180, 270][(i % 4) as usize], i / 4 % 2 == 1);
    let (w, h) = [(0u32, 0u32), (1, 2), (640, 480), (1280, 720), (77, 77), (65_537, 3), (7680, 4321), (1, 1 << 20)][(i / 8 % 8) as usize];
    let m: VideoFrameMetadata = unsafe { std::mem::transmute([w, h, rot]) };
    let base = mark();
    let buffer = Box::new(5u32);
    let at = &*buffer as *const u32 as usize;
    let frame = VideoFrame::from_buffer(m, if null { Arc::null() } else { Arc::from_owned(unsafe { OwnedRc::from_ptr(&*buffer) }) });
    ensure!((frame.width(), frame.height()) == (w, h), "a frame of {w}x{h} is {}x{}", frame.width(), frame.height());
    let frame = frame.apply_rotation();
    let turned = !null && (rot == 90 || rot == 270);
    let want = if turned { (h, w) } else { (w, h) };
    ensure!((frame.width(), frame.height()) == want, "a frame of {w}x{h}, turned by {rot} (empty {null}), is {}x{}", frame.width(), frame.height());
    let raw: [u32; 3] = unsafe { std::mem::transmute(frame.metadata()) };
    ensure!(raw[2] == if null { rot } else { 0 }, "the rotation {rot} is {} after it was applied", raw[2]);
    // doing it again changes nothing
    let frame = frame.apply_rotation();
    ensure!((frame.width(), frame.height()) == want, "a frame was turned twice");
    for (x, y) in [(16, 9), (65_536, 1), (70_000, 65_537)] {
        let small = frame.scale(x, y);
        ensure!((small.width(), small.height()) == (x, y), "scaled to {}x{} instead of {x}x{y}", small.width(), small.height());
    }
    drop(frame);
    ensure!(null || count(at, base) == -1, "the frame's buffer was released {} times", -count(at, base));
    for (n, f) in [(0, Some(VideoPixelFormat::I420)), (1, Some(VideoPixelFormat::Nv12)), (2, Some(VideoPixelFormat::Rgba)), (3, None), (-1, None)] {
        ensure!(VideoPixelFormat::from_i32(n) == f, "pixel format {n} is {:?}", VideoPixelFormat::from_i32(n));
    }
    Ok(turned)
}

fn headers(i: u64) -> Result<bool, String> {
    let of = |k: u64| Header { pt: 96 + (k % 2) as u8, ssrc: 7 + (k / 2 % 2) as u32, seqnum: 100 + k as u16, timestamp: 1000 + k as u32 };
    let mut h = of(i % 4);
    let first = h.clone();
    let others: Vec<Header> = (0..i / 4 % 4).map(|n| Header { seqnum: n as u16, timestamp: n as u32, ..of(i / 16 >> (2 * n)) }).collect();
    let last = others.iter().filter(|o| o.pt == first.pt && o.ssrc == first.ssrc).last().cloned();
    h.extend(others.clone());
    let want = last.clone().unwrap_or(first.clone());
    ensure!((h.pt, h.ssrc, h.seqnum, h.timestamp) == (first.pt, first.ssrc, want.seqnum, want.timestamp), "{first:?} extended by {others:?} is {h:?}");
    Ok(last.is_some())
}

pub fn c37() {
    listen();
    let mut c = Check::new("C37", "model_checking");
    c.rule("Every sequence, up to the depth, of operations on two places that hold shared references or owned objects; every combination of the stated grids of addresses, packets, ICE servers, encoder configurations, frames and RTP headers.");
    c.assume("WebRTC's side is a stand-in that reads the C layout and counts references.");
    let cfg = mc::Config { bound: 0, max_seconds: pick(200, 800), ..Default::default() };
    let n = pick(6, 7);
    c.schedules("shared_references", &cfg, &|| references(n));
    c.schedules("owned_objects", &cfg, &|| unique(n));
    c.enumerate("released_before_their_owner", 54, owners);
    let v6 = v6s();
    let n6 = v6.len() as u64;
    c.enumerate("addresses", 4 * 256 + n6, |i| {
        let ip: IpAddr = if i < 1024 {
            let mut o = [1u8, 2, 3, 4];
            o[(i / 256) as usize] = (i % 256) as u8;
            IpAddr::V4(Ipv4Addr::from(o))
        } else {
            IpAddr::V6(v6[(i - 1024) as usize])
        };
        let r = RffiIp::from(ip);
        ensure!(r.ip() == ip, "{ip} comes back as {}", r.ip());
        ensure!(bytes_of(&r) == expect_ip(ip), "{ip} is {:02x?} for WebRTC", bytes_of(&r));
        ensure!(format!("{r:?}") == format!("{ip:?}"), "{ip} is printed as {r:?}");
        for port in [0u16, 1, 255, 256, 4660, 32767, 32768, 65535] {
            let a = SocketAddr::new(ip, port);
            let r = RffiIpPort::from(a);
            ensure!(r.socket_addr() == a && SocketAddr::from(&r) == a, "{a} comes back as {}", r.socket_addr());
            let b = bytes_of(&r);
            ensure!(b.len() == 20 && b[..17] == expect_ip(ip)[..] && b[18..20] == port.to_ne_bytes(), "{a} is {b:02x?} for WebRTC");
        }
        Ok(true)
    });
    c.enumerate("ports", 65536, |i| {
        let a = SocketAddr::from(([1, 2, 3, 4], i as u16));
        ensure!(RffiIpPort::from(a).socket_addr() == a, "{a} comes back as {}", RffiIpPort::from(a).socket_addr());
        Ok(true)
    });
    c.enumerate("injected_packets", 160, injected);
    c.enumerate("ice_servers", 1024, ice_servers);
    c.enumerate("encoder_configurations", 6 * 8 * 5 * 7, encoder);
    c.enumerate("frames", 64, frames);
    c.enumerate("rtp_headers", 16 * 64, headers);
    c.enumerate("peer_connections", 4 * 3 * 4, peer_connections);
    c.enumerate("what_webrtc_tells", 3 * 528, observed);
    c.sample(json!({"harnesses": 12}));
    c.finish();
}

// --- what a peer connection is made with --------------------------------------------------------------------------
thread_local! {
    static MADE: RefCell<Vec<(u8, [i32; 3], bool, i32, Vec<(String, String, String, Vec<String>)>)>> = const { RefCell::new(vec![]) };
}
#[repr(C)]
struct Jitter {
    max_packets: i32,
    min_delay_ms: i32,
    max_target_delay_ms: i32,
    fast_accelerate: bool,
}
#[repr(C)]
struct Servers {
    servers: *const RffiIceServer,
    n: usize,
}
fn peer_connections(i: u64) -> Result<bool, String> {
    use ringrtc::webrtc::{peer_connection_factory::RffiPeerConnectionKind as Kind, sim::peer_connection_factory as sim};
    sim::listen(|kind, jitter, interval, servers| {
        let (j, s) = unsafe { (&*(jitter as *const Jitter), &*(servers as *const Servers)) };
        let list = (0..s.n).map(|k| unsafe { read(&*s.servers.add(k)) }).collect();
        MADE.with(|m| m.borrow_mut().push((kind, [j.max_packets, j.min_delay_ms, j.max_target_delay_ms], j.fast_accelerate, interval, list)));
    });
    MADE.with(|m| m.borrow_mut().clear());
    let kind = (i % 3) as u8;
    let as_kind = |k: u8| match k { 0 => Kind::Direct, 1 => Kind::Relayed, _ => Kind::GroupCall };
    let fast = i / 4 % 3 == 1;
    let jitter = AudioJitterBufferConfig { max_packets: 50 + i as i32, min_delay_ms: i as i32, max_target_delay_ms: 500 - i as i32, fast_accelerate: fast };
    let list: Vec<_> = (0..i / 12).map(|k| (format!("user{k}"), format!("pw{k}"), "host".to_string(), (0..k).map(|u| format!("turn:{k}-{u}")).collect::<Vec<_>>())).collect();
    let servers: Vec<IceServer> = list.iter().map(|s| IceServer::new(s.0.clone(), s.1.clone(), s.2.clone(), s.3.clone())).collect();
    let pcf = PeerConnectionFactory::new(&AudioConfig::default(), false, "", None).map_err(|e| e.to_string())?;
    let audio = pcf.create_outgoing_audio_track().map_err(|e| e.to_string())?;
    let nothing = Nothing::default();
    let observer = webrtc::peer_connection_observer::PeerConnectionObserver::new(Borrowed::from_ptr(&nothing as *const Nothing), false, false, false).map_err(|e| e.to_string())?;
    let pc = pcf.create_peer_connection(observer, as_kind(kind), &jitter, 5000 + i as i32, &servers, audio, None).map_err(|e| e.to_string())?;
    let made = MADE.with(|m| m.borrow().clone());
    ensure!(made == vec![(kind, [50 + i as i32, i as i32, 500 - i as i32], fast, 5000 + i as i32, list)], "a peer connection was made with {made:?}");
    drop(pc);
    let _: BTreeMap<u8, u8> = Default::default();
    Ok(true)
}


// --- what WebRTC tells its observers ------------------------------------------------------------------------------
use ringrtc::{
    common::Result as RingResult,
    core::signaling,
    webrtc::{
        peer_connection_observer::{IceConnectionState, NetworkAdapterType, NetworkRoute, PeerConnectionObserver, PeerConnectionObserverTrait, TransportProtocol},
        rtp_observer::{RtpObserver, RtpObserverTrait},
    },
};

#[derive(Default)]
struct Nothing {
    fail: bool,
    got: RefCell<Vec<String>>,
}
impl Nothing {
    fn note(&self, s: String) -> RingResult<()> {
        self.got.borrow_mut().push(s);
        if self.fail { Err(anyhow::anyhow!("the observer fails")) } else { Ok(()) }
    }
}
impl PeerConnectionObserverTrait for Nothing {
    fn log_id(&self) -> &dyn std::fmt::Display {
        &"nothing"
    }
    fn handle_ice_candidate_gathered(&mut self, c: signaling::IceCandidate, sdp: &str, relay: Option<TransportProtocol>) -> RingResult<()> {
        self.note(format!("candidate {sdp} {relay:?} {}", c.v3_sdp().unwrap()))
    }
    fn handle_ice_candidate_removed(&mut self, a: SocketAddr) -> RingResult<()> {
        self.note(format!("removed {a}"))
    }
    fn handle_ice_connection_state_changed(&mut self, s: IceConnectionState) -> RingResult<()> {
        self.note(format!("state {s:?}"))
    }
    fn handle_ice_network_route_changed(&mut self, r: NetworkRoute) -> RingResult<()> {
        self.note(format!("route {r:?}"))
    }
    fn handle_incoming_media_added(&mut self, s: webrtc::media::MediaStream) -> RingResult<()> {
        let r = self.note("media".into());
        drop(s);
        r
    }
    fn handle_incoming_audio_added(&mut self, t: AudioTrack) -> RingResult<()> {
        let r = self.note("audio".into());
        drop(t);
        r
    }
    fn handle_incoming_video_added(&mut self, t: VideoTrack, d: Option<u32>) -> RingResult<()> {
        let r = self.note(format!("video {d:?}"));
        drop(t);
        r
    }
    fn handle_incoming_video_frame(&self, d: u32, m: VideoFrameMetadata, f: Option<VideoFrame>) -> RingResult<()> {
        let raw: [u32; 3] = unsafe { std::mem::transmute(m) };
        self.note(format!("frame {d} {raw:?} {:?}", f.map(|f| (f.width(), f.height()))))
    }
    fn get_media_ciphertext_buffer_size(&mut self, a: bool, n: usize) -> usize {
        let _ = self.note(format!("ciphertext size {a} {n}"));
        n + 7
    }
    fn encrypt_media(&mut self, p: &[u8], c: &mut [u8]) -> RingResult<usize> {
        self.note(format!("encrypt {p:?} {}", c.len()))?;
        c.fill(0xC1);
        Ok(c.len() / 2)
    }
    fn get_media_plaintext_buffer_size(&mut self, t: u32, a: bool, n: usize) -> usize {
        let _ = self.note(format!("plaintext size {t} {a} {n}"));
        n + 3
    }
    fn decrypt_media(&mut self, t: u32, c: &[u8], p: &mut [u8]) -> RingResult<usize> {
        self.note(format!("decrypt {t} {c:?} {}", p.len()))?;
        p.fill(0xD2);
        Ok(p.len() / 3)
    }
}
impl RtpObserverTrait for Nothing {
    fn handle_rtp_received(&mut self, h: Header, data: &[u8]) {
        let _ = self.note(format!("rtp {} {} {} {} {data:?}", h.pt, h.seqnum, h.timestamp, h.ssrc));
    }
}

#[repr(C)]
struct Candidate {
    sdp: *const c_char,
    relayed: bool,
    protocol: i32,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Route {
    local: i32,
    under_vpn: i32,
    relayed: bool,
    protocol: i32,
    remote_relayed: bool,
}
type Ob = *const c_void;

/// Everything WebRTC can tell, with `i` choosing the values, whether there is an observer and whether it fails.
fn observed(i: u64) -> Result<bool, String> {
    use ringrtc::webrtc::sim::peer_connection_observer::RffiPeerConnectionObserver as Raw;
    let (there, fail, i) = (i % 3 != 0, i % 3 == 2, i / 3);
    let nothing = Nothing { fail, ..Default::default() };
    let at: Ob = if there { &nothing as *const Nothing as Ob } else { std::ptr::null() };
    let o = PeerConnectionObserver::<Nothing>::new(Borrowed::from_ptr(at as *const Nothing), i & 1 == 1, false, false).map_err(|e| e.to_string())?;
    let raw = o.into_rffi();
    let r: &Raw = raw.as_ref().ok_or("no observer was made")?;
    ensure!(std::ptr::eq(r.observer, at), "WebRTC got another observer");
    let cb = r.callbacks;
    macro_rules! call {
        ($n:expr, fn($($t:ty),*) $(-> $r:ty)?, $($a:expr),*) => {
            (unsafe { std::mem::transmute::<usize, extern "C" fn($($t),*) $(-> $r)?>(cb[$n]) })($($a),*)
        };
    }
    let mut want: Vec<String> = vec![];
    let mut expect = |s: String| if there { want.push(s) };
    // candidates
    let protocols = [TransportProtocol::Udp, TransportProtocol::Tcp, TransportProtocol::Tls, TransportProtocol::Unknown];
    let (p, relayed) = ((i % 4) as i32, i / 4 % 2 == 1);
    let long = "candidate:1 1 udp 2 10.0.0.1 3 typ host network-cost ".repeat(i as usize);
    let sdp = ["", "candidate:1 1 udp 2 10.0.0.1 3 typ host", "n\u{e4}me", " a=candidate:1 1 UDP 2 10.0.0.1 3 typ host\r\n", &long][(i % 5) as usize];
    let text = std::ffi::CString::new(sdp).unwrap();
    let c = Candidate { sdp: text.as_ptr(), relayed, protocol: p };
    call!(0, fn(Ob, *const Candidate), at, &c);
    expect(format!("candidate {sdp} {:?} {sdp}", relayed.then_some(protocols[p as usize])));
    call!(0, fn(Ob, *const Candidate), at, std::ptr::null());
    let a = SocketAddr::from(([i as u8, 2, 3, 250], 1000 + i as u16));
    call!(1, fn(Ob, RffiIpPort), at, a.into());
    expect(format!("removed {a}"));
    let states = [IceConnectionState::New, IceConnectionState::Checking, IceConnectionState::Connected, IceConnectionState::Completed, IceConnectionState::Failed, IceConnectionState::Disconnected, IceConnectionState::Closed, IceConnectionState::Max];
    call!(2, fn(Ob, i32), at, (i % 8) as i32);
    expect(format!("state {:?}", states[(i % 8) as usize]));
    let adapters = [(0, NetworkAdapterType::Unknown), (1, NetworkAdapterType::Ethernet), (2, NetworkAdapterType::Wifi), (4, NetworkAdapterType::Cellular), (8, NetworkAdapterType::Vpn), (16, NetworkAdapterType::Loopback), (32, NetworkAdapterType::Default), (64, NetworkAdapterType::Cellular2G), (128, NetworkAdapterType::Cellular3G), (256, NetworkAdapterType::Cellular4G), (512, NetworkAdapterType::Cellular5G)];
    for (n, t) in adapters {
        ensure!(t.is_cellular() == [4, 64, 128, 256, 512].contains(&n), "{t:?} is cellular: {}", t.is_cellular());
    }
    let (x, y) = (adapters[(i % 11) as usize], adapters[(i / 11 % 11) as usize]);
    let route = Route { local: x.0, under_vpn: y.0, relayed, protocol: p, remote_relayed: i & 1 == 1 };
    call!(3, fn(Ob, Route, *const c_char, *const c_char), at, route, c"local".as_ptr(), text.as_ptr());
    expect(format!("route {:?}", NetworkRoute { local_adapter_type: x.1, local_adapter_type_under_vpn: y.1, local_relayed: relayed, local_relay_protocol: protocols[p as usize], remote_relayed: i & 1 == 1 }));
    // media
    let things: Vec<Box<u32>> = (0..5).map(Box::new).collect();
    let thing = |k: usize| &*things[k] as *const u32;
    let stream: Box<[u64; 8]> = Box::default();
    let base = mark();
    call!(4, fn(Ob, *const c_void), at, stream.as_ptr() as *const c_void);
    expect("media".into());
    call!(5, fn(Ob, *const u32), at, thing(1));
    expect("audio".into());
    let d = [0u32, 1, 16, u32::MAX, 15, 0x8000_0000, 0x0001_0005, 0x7fff_fff0][(i % 8) as usize];
    call!(6, fn(Ob, *const u32, u32), at, thing(2), d);
    expect(format!("video {:?}", (d != 0).then_some(d)));
    let m = [640 + i as u32 * [1, 300][(i % 2) as usize], 480 + [0, 70_000][(i / 2 % 2) as usize], [0, 90, 180, 270][(i / 4 % 4) as usize]];
    call!(7, fn(Ob, u32, [u32; 3], *const u32), at, d, m, thing(3));
    expect(format!("frame {d} {m:?} {:?}", Some((m[0], m[1]))));
    call!(7, fn(Ob, u32, [u32; 3], *const u32), at, d, m, std::ptr::null());
    expect(format!("frame {d} {m:?} None"));
    if there {
        for (k, p) in [(0, stream.as_ptr() as usize), (1, thing(1) as usize), (2, thing(2) as usize), (3, thing(3) as usize)] {
            ensure!(count(p, base) == -1, "what WebRTC handed over (kind {k}, the observer fails: {fail}) was given back {} times", -count(p, base));
        }
    }
    // encryption
    let sizes = [1500usize, 32_768, 65_535, 65_536, 70_001, 140_000];
    let (big, big_out) = (i % 16 == 5, i % 8 == 5);
    let plain: Vec<u8> = (0..if big { sizes[(i / 16 % 6) as usize] } else { i as usize % 5 }).map(|k| (k + k / 256) as u8).collect();
    let n = if big_out { sizes[(i / 8 % 6) as usize] } else { (i % 7) as usize };
    let size = call!(8, fn(Ob, bool, usize) -> usize, at, relayed, n);
    expect(format!("ciphertext size {relayed} {n}"));
    ensure!(size == if there { n + 7 } else { 0 }, "a ciphertext of {size}");
    let size = call!(10, fn(Ob, u32, bool, usize) -> usize, at, d, relayed, n);
    expect(format!("plaintext size {d} {relayed} {n}"));
    ensure!(size == if there { n + 3 } else { 0 }, "a plaintext of {size}");
    for missing in 0..4 {
        let pl = if missing == 1 { std::ptr::null() } else { plain.as_ptr() };
        let mut out = vec![9u8; n + 10];
        let o = if missing == 2 { std::ptr::null_mut() } else { out.as_mut_ptr() };
        let mut written = 77usize;
        let w = if missing == 3 { std::ptr::null_mut() } else { &mut written as *mut usize };
        let ok = call!(9, fn(Ob, *const u8, usize, *mut u8, usize, *mut usize) -> bool, at, pl, plain.len(), o, n, w);
        let good = there && missing == 0;
        if good { expect(format!("encrypt {plain:?} {n}")) }
        ensure!(ok == (good && !fail), "encrypting says {ok} (missing {missing}, observer {there}, failing {fail})");
        ensure!(written == if ok { n / 2 } else { 77 }, "encrypting wrote {written}");
        ensure!((0..n + 10).all(|k| out[k] == if ok && k < n { 0xC1 } else { 9 }), "encrypting into {n} bytes wrote elsewhere");
        let mut out = vec![9u8; n + 10];
        let o = if missing == 2 { std::ptr::null_mut() } else { out.as_mut_ptr() };
        let mut written = 77usize;
        let w = if missing == 3 { std::ptr::null_mut() } else { &mut written as *mut usize };
        let ok = call!(11, fn(Ob, u32, *const u8, usize, *mut u8, usize, *mut usize) -> bool, at, d, pl, plain.len(), o, n, w);
        if good { expect(format!("decrypt {d} {plain:?} {n}")) }
        ensure!(ok == (good && !fail), "decrypting says {ok} (missing {missing}, observer {there}, failing {fail})");
        ensure!(written == if ok { n / 3 } else { 77 }, "decrypting wrote {written}");
        ensure!((0..n + 10).all(|k| out[k] == if ok && k < n { 0xD2 } else { 9 }), "decrypting into {n} bytes wrote elsewhere");
    }
    // RTP
    let o = RtpObserver::<Nothing>::new(Borrowed::from_ptr(at as *const Nothing)).map_err(|e| e.to_string())?;
    let rtp = o.into_rffi();
    let rtp = rtp.as_ref().ok_or("no RTP observer was made")?;
    let f: extern "C" fn(Ob, u8, u16, u32, u32, *const u8, usize) = unsafe { std::mem::transmute(rtp.on_rtp_received) };
    let h = (100 + (i % 28) as u8, 65535 - i as u16, u32::MAX - i as u32, 0x01020304 + i as u32);
    f(rtp.observer, h.0, h.1, h.2, h.3, plain.as_ptr(), plain.len());
    expect(format!("rtp {} {} {} {} {plain:?}", h.0, h.1, h.2, h.3));
    f(rtp.observer, h.0, h.1, h.2, h.3, std::ptr::null(), 5);
    let got = nothing.got.borrow();
    let first = got.iter().zip(&want).position(|(g, w)| g != w).unwrap_or(got.len().min(want.len()));
    ensure!(*got == want, "observer there {there}, failing {fail}: it was told {:?} instead of {:?}", got.get(first), want.get(first));
    Ok(there)
}
