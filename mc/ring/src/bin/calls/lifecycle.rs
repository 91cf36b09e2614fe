//! C18: every call that starts ends exactly once and concludes exactly once.
use mclib::{Check, bfs::Limits, ensure, pick};

use crate::{sim::*, world::*};

pub const OUT: Id = 100;
pub const OUT2: Id = 101;
pub const OUT3: Id = 102;
pub const IN_HIGH: Id = 200;
pub const IN_LOW: Id = 50;
pub const OTHER: Id = 300;

/// Everything that can arrive: the application, the network, WebRTC and time.
pub fn everything(s: &Sim) -> Vec<Act> {
    let mut v = vec![];
    let calls = &s.calls;
    let new = |id: Id| !calls.contains_key(&id);
    for (peer, id) in [(1, OUT), (2, OUT2), (1, OUT3)] {
        if new(id) { v.push(Act::Call { peer, id }); }
    }
    for (peer, id, dev) in [(1, IN_HIGH, 2), (1, IN_LOW, 2), (2, OTHER, 2)] {
        if new(id) { v.push(Act::Offer { peer, id, dev, expired: false }); }
    }
    if new(OTHER + 1) { v.push(Act::Offer { peer: 1, id: OTHER + 1, dev: 2, expired: true }); }
    if s.in_flight.is_some() { v.extend([Act::Sent, Act::Failed]); }
    if s.resets == 0 && !s.calls.is_empty() { v.push(Act::Reset); }
    let Some(id) = s.active() else { return v };
    let t = &s.calls[&id];
    let st = s.call_state().unwrap_or_default();
    v.extend([Act::Hangup, Act::DropCall(id)]);
    if st == "WaitingToProceed" { v.push(Act::Proceed(id)); }
    if !t.outgoing && !t.accepted { v.push(Act::Accept(id)); }
    let peer = t.peer;
    let devs: &[Dev] = if t.outgoing { &[2, 3] } else { &[2] };
    for &dev in devs {
        if t.outgoing && !t.answers_in.contains(&dev) { v.push(Act::Answer { peer, id, dev }); }
        v.push(Act::RemoteHangup { peer, id, dev, hang: Hang::Normal });
        if s.ice_in < 1 { v.push(Act::Ice { peer, id, dev }); }
    }
    if t.outgoing {
        v.push(Act::RemoteBusy { peer, id, dev: 2 });
        v.push(Act::RemoteHangup { peer, id, dev: 2, hang: Hang::Permission(None) });
    } else {
        v.push(Act::RemoteHangup { peer, id, dev: 2, hang: Hang::Accepted(3) });
    }
    for d in 0..=3 {
        let Some(cs) = s.conn_state(d) else { continue };
        if s.gathered < 2 && (d == 0 || !t.outgoing) { v.push(Act::Gathered(d)); }
        if d == 0 { continue; }
        v.push(if cs.starts_with("Connected") { Act::IceDisconnected(d) } else { Act::IceConnected(d) });
        v.push(Act::IceFailed(d));
        if !t.events.iter().any(|e| matches!(e, Ev::MediaCreated { dev, .. } if *dev == d)) { v.push(Act::Media(d)); }
        if t.outgoing && !t.remote_accepts.contains(&d) { v.push(Act::RtpAccepted(d)); }
        v.push(Act::RtpHangup(d, Hang::Normal));
    }
    v.push(Act::Wait(61));
    v
}

/// Two inputs of the application or the network that arrive together.
pub fn pairs(s: &Sim) -> Vec<Input> {
    let v: Vec<Act> = everything(s).into_iter().filter(|a| !matches!(a,
        Act::Wait(_) | Act::Gathered(_) | Act::IceConnected(_) | Act::IceDisconnected(_) | Act::IceFailed(_) | Act::Media(_) | Act::RtpAccepted(_) | Act::RtpHangup(..))).collect();
    let mut o: Vec<Input> = vec![];
    for &a in &v {
        for &b in &v {
            if a != b || !matches!(a, Act::Sent | Act::Failed | Act::Call { .. } | Act::Offer { .. }) {
                o.push((a, Some(b)));
            }
        }
    }
    o
}

pub fn monitor(s: &mut Sim, (a, b): Input) -> Result<(), String> {
    // two inputs at once may race with the end of a call
    let racing = s.raced || b.is_some();
    for (id, t) in &s.calls {
        let offered = s.acts.iter().any(|x| matches!(x, Act::Call { id: i, .. } | Act::Offer { id: i, .. } if i == id));
        ensure!(offered || t.events.is_empty(), "callbacks for a call {id} that nobody made: {:?}", t.events);
        ensure!(t.starts <= 1, "call {id} was started twice");
        ensure!(t.ended.len() <= 1, "call {id} ended {} times: {:?}", t.ended.len(), t.ended);
        ensure!(t.concluded <= 1, "call {id} concluded {} times", t.concluded);
        let mut ended = false;
        for (n, e) in t.events.iter().enumerate() {
            ensure!(n == 0 || !matches!(t.events[n - 1], Ev::Concluded { .. }), "after the conclusion of call {id}: {e:?}");
            match e {
                Ev::Start { peer, outgoing, .. } => ensure!(*peer == t.peer && *outgoing == t.outgoing && !ended, "wrong start: {e:?}"),
                Ev::Ended { peer, .. } => { ensure!(*peer == t.peer, "ended for the wrong peer"); ended = true; }
                Ev::Concluded { peer, .. } => {
                    ensure!(*peer == t.peer, "concluded for the wrong peer");
                    ensure!(ended || t.starts == 0 || s.resets > 0, "call {id} concluded without having ended");
                }
                Ev::Event { event, .. } => ensure!((!ended || racing) && (t.starts == 1 || event.starts_with("ReceivedOfferW") || event == "GlareHandlingFailure"),
                    "event {event} for call {id}, which {}", if ended { "has ended" } else { "has not started" }),
                Ev::Hangup { .. } | Ev::Busy { .. } => {}
                Ev::Rtp { .. } => {}
                Ev::OfferExpired { .. } => ensure!(t.starts == 0, "a call that started has expired"),
                _ => ensure!(t.starts == 1 && (!ended || racing), "{e:?} outside the life of call {id}"),
            }
        }
    }
    // a call the application asks for while it is in one fails, and leaves that one alone
    if let (Act::Call { id, .. }, Some(x), None) = (a, s.prev_active, b) {
        ensure!(active_is(s, x), "calling {id} while call {x} was going on ended call {x}: {:?}", s.calls[&x].ended);
        ensure!(s.calls[&id].starts == 0 && s.calls[&id].ended.len() == 1 && s.calls[&id].concluded == 1, "call {id} was made during call {x} and was not refused: {:?}", s.calls[&id].events);
    }
    // the active call is one that has started and not ended; busy says the same
    let active = s.active();
    ensure!(s.c.cm.busy() == active.is_some(), "busy {} but the active call is {active:?}", s.c.cm.busy());
    for (id, t) in &s.calls {
        let live = t.starts == 1 && t.ended.is_empty() && !(s.resets > 0 && t.concluded > 0);
        ensure!(!(active == Some(*id)) || t.ended.is_empty(), "ended call {id} is still active");
        ensure!(s.resets > 0 || live == (active == Some(*id)), "call {id} is {} but the active call is {active:?} after {a:?}", if live { "going on" } else { "not going on" });
    }
    Ok(())
}

fn active_is(s: &Sim, id: Id) -> bool {
    s.active() == Some(id)
}

pub fn final_monitor(s: &mut Sim) -> Result<(), String> {
    s.finale()?;
    monitor(s, (Act::Sent, None))?;
    ensure!(s.active().is_none() && !s.c.cm.busy(), "hung up, but {:?} is active", s.active());
    for (id, t) in &s.calls {
        ensure!(t.concluded == 1, "call {id} was never concluded: {:?}", t.events);
        ensure!(t.ended.len() == 1 || (t.starts == 0 && !t.outgoing) || s.resets > 0, "call {id} never ended");
    }
    ensure!(s.threads() == 0, "{} threads are left after every call has concluded", s.threads());
    Ok(())
}

pub fn reached(s: &Sim) -> Vec<&'static str> {
    let mut v = vec![];
    for t in s.calls.values() {
        for e in &t.events {
            match e {
                Ev::Ended { reason, .. } => v.push(match reason.as_str() {
                    "LocalHangup" => "LocalHangup", "RemoteHangup" => "RemoteHangup", "RemoteBusy" => "RemoteBusy", "Timeout" => "Timeout",
                    "RemoteGlare" => "RemoteGlare", "RemoteReCall" => "RemoteReCall", "ConnectionFailure" => "ConnectionFailure",
                    "InternalFailure" => "InternalFailure", "SignalingFailure" => "SignalingFailure", "AppDroppedCall" => "AppDroppedCall",
                    "RemoteHangupAccepted" => "RemoteHangupAccepted", "RemoteHangupNeedPermission" => "RemoteHangupNeedPermission", _ => "other end",
                }),
                Ev::MediaConnected { .. } => v.push("media connected"),
                Ev::Busy { .. } => v.push("busy sent"),
                Ev::OfferExpired { .. } => v.push("offer expired"),
                _ => {}
            }
        }
    }
    v
}

pub const RINGING_OUT: &[Act] = &[
    Act::Call { peer: 1, id: OUT }, Act::Proceed(OUT), Act::Sent, Act::Answer { peer: 1, id: OUT, dev: 2 }, Act::IceConnected(2),
];
pub const TALKING_OUT: &[Act] = &[
    Act::Call { peer: 1, id: OUT }, Act::Proceed(OUT), Act::Sent, Act::Answer { peer: 1, id: OUT, dev: 2 }, Act::IceConnected(2),
    Act::Media(2), Act::RtpAccepted(2),
];
pub const RINGING_IN: &[Act] = &[
    Act::Offer { peer: 1, id: IN_LOW, dev: 2, expired: false }, Act::Proceed(IN_LOW), Act::Sent, Act::IceConnected(2), Act::Media(2),
];
pub const TALKING_IN: &[Act] = &[
    Act::Offer { peer: 1, id: IN_LOW, dev: 2, expired: false }, Act::Proceed(IN_LOW), Act::Sent, Act::IceConnected(2), Act::Media(2), Act::Accept(IN_LOW),
];
pub const PREFIXES: &[(&str, &[Act])] = &[
    ("from nothing", &[]), ("from an outgoing call ringing", RINGING_OUT), ("from an outgoing call accepted", TALKING_OUT),
    ("from an incoming call ringing", RINGING_IN), ("from an incoming call accepted", TALKING_IN),
];

pub fn c18() {
    let mut c = Check::new("C18", "model_checking");
    for (name, prefix) in PREFIXES {
        let scene = Scene { prefix, enabled: &|s| single(everything(s)), check: &monitor, end: &final_monitor, reached: &reached };
        let mut l = Limits::depth(if prefix.is_empty() { pick(5, 8) } else { pick(4, 7) });
        l.max_seconds = pick(40.0, 150.0);
        let st = c.paths(name, l, &|ch| explore(&scene, ch));
        eprintln!("   {:?} {:?}", st.levels, st.covered);
    }
    for (name, prefix) in PREFIXES {
        let scene = Scene {
            prefix,
            enabled: &|s| if s.acts.len() == prefix.len() { [single(everything(s)), pairs(s)].concat() } else if s.acts.len() < prefix.len() + 4 { pairs(s) } else { vec![] },
            check: &monitor, end: &final_monitor, reached: &reached,
        };
        let mut l = Limits::depth(2);
        l.max_seconds = pick(30.0, 150.0);
        c.paths(&format!("two inputs at once, {name}"), l, &|ch| explore(&scene, ch));
    }
    c.finish()
}
