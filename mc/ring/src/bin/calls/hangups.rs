//! C34: what a hangup or a busy does, by whom it comes and for what, and who else is told.
use mclib::{Check, bfs::Limits, ensure, pick};

use crate::{lifecycle::*, sim::*, world::*};

const BEFORE: &[&str] = &["WaitingToProceed", "ConnectingBeforeAccepted", "ConnectedBeforeAccepted"];
const UP: &[&str] = &["ConnectingBeforeAccepted", "ConnectingAfterAccepted", "ConnectedBeforeAccepted", "ConnectedAndAccepted", "ReconnectingAfterAccepted"];

/// What an input does to the call.
struct Effect {
    ended: Option<&'static str>,
    /// a hangup, and the device that does not need it
    tell: Option<(Hang, Dev)>,
    signal: bool,
}
const NOTHING: Effect = Effect { ended: None, tell: None, signal: false };

fn hangup(s: &Sim, t: &Track, dev: Dev, hang: Hang) -> Effect {
    let about = hang.real().to_type_and_device_id().1;
    if !t.outgoing && about == Some(LOCAL) { return NOTHING; }
    if s.prev_dev.is_some_and(|d| d != dev) { return NOTHING; }
    let early = BEFORE.contains(&s.prev_state.as_deref().unwrap_or(""));
    let just = |r| Effect { ended: Some(r), tell: None, signal: false };
    let tell = |r, h| if early { Effect { ended: Some(r), tell: Some((h, dev)), signal: true } } else { just(r) };
    match (hang, t.outgoing) {
        (Hang::Normal, true) => tell("RemoteHangup", Hang::Declined(dev)),
        (Hang::Permission(_), true) => tell("RemoteHangupNeedPermission", Hang::Permission(Some(dev))),
        (Hang::Accepted(_), false) => just("RemoteHangupAccepted"),
        (Hang::Declined(_), false) => just("RemoteHangupDeclined"),
        (Hang::Busy(_), false) => just("RemoteHangupBusy"),
        _ => just("RemoteHangup"),
    }
}

fn effect(s: &Sim, a: Act) -> Effect {
    let Some(id) = s.prev_active else { return NOTHING };
    let t = &s.calls[&id];
    let st = s.prev_state.as_deref().unwrap_or("");
    match a {
        Act::RemoteHangup { peer, id: i, dev, hang } if i == id && peer == t.peer => hangup(s, t, dev, hang),
        Act::RtpHangup(dev, hang) if s.prev_conns.get(&dev).is_some_and(|c| UP.contains(&c.as_str())) => hangup(s, t, dev, hang),
        Act::RemoteBusy { peer, id: i, dev } if i == id && peer == t.peer && s.prev_dev.is_none_or(|d| d == dev) =>
            Effect { ended: Some("RemoteBusy"), tell: Some((Hang::Busy(dev), dev)), signal: true },
        Act::Hangup => Effect { ended: Some("LocalHangup"), tell: Some((Hang::Normal, 0)), signal: !t.outgoing || s.acts.contains(&Act::Proceed(id)) },
        Act::Wait(_) if BEFORE.contains(&st) || st == "ConnectingAfterAccepted" =>
            Effect { ended: Some("Timeout"), tell: Some((Hang::Normal, 0)), signal: !t.outgoing || s.acts.contains(&Act::Proceed(id)) },
        Act::RtpAccepted(dev) if t.outgoing && s.prev_dev.is_none() && s.active_dev() == Some(dev) =>
            Effect { ended: None, tell: Some((Hang::Accepted(dev), dev)), signal: true },
        _ => NOTHING,
    }
}

fn monitor(s: &mut Sim, (a, b): Input) -> Result<(), String> {
    if b.is_some() || s.raced { return Ok(()); }
    let e = effect(s, a);
    if let Some(id) = s.prev_active {
        let t = &s.calls[&id];
        let judged = matches!(a, Act::RemoteHangup { .. } | Act::RtpHangup(..) | Act::RemoteBusy { .. } | Act::Hangup | Act::Wait(_));
        match e.ended {
            Some(r) => ensure!(t.ended == [r] && s.active().is_none(), "after {a:?}, the call has to end as {r}: it {:?}", t.ended),
            None if judged => {
                ensure!(s.active() == Some(id) && t.ended.is_empty() && s.call_state() == s.prev_state, "{a:?} is not for this call as it is, and did {:?}", s.last);
                ensure!(matches!(a, Act::Wait(_)) || s.last.is_empty(), "{a:?} is not for this call as it is, and did {:?}", s.last);
            }
            None => {}
        }
        if judged || e.tell.is_some() {
            for (&d, _) in &s.prev_conns {
                let said: Vec<_> = s.last.iter().filter_map(|x| match x { Ev::Rtp { id: i, dev, msg } if *i == id && *dev == d && msg.contains("hangup") => Some(msg.as_str()), _ => None }).collect();
                let want = e.tell.filter(|(_, not)| *not != d).map(|(h, _)| { let t = rtp_text(&h.rtp(id)); t.split_once(' ').unwrap().1.to_string() });
                match want {
                    None => ensure!(said.is_empty(), "after {a:?}, device {d} was told {said:?}"),
                    Some(w) => ensure!(said.len() == 1 && said[0].contains(&w), "after {a:?}, device {d} has to be told {w}, and was told {said:?}"),
                }
            }
        }
        if let (Some((h, _)), true) = (e.tell, e.signal) {
            s.due.entry(id).or_default().push(format!("{:?}", h.real()));
        }
    }
    // nobody is told anything else
    for (id, t) in &s.calls {
        let said: Vec<_> = t.events.iter().filter_map(|x| match x { Ev::Hangup { hangup, .. } => Some(hangup.clone()), _ => None }).collect();
        let due = s.due.get(id).cloned().unwrap_or_default();
        ensure!(due.starts_with(&said), "the devices are told {said:?}, should be {due:?} (after {a:?})");
        ensure!(s.flight || s.released || said == due, "nothing is on its way, and of {due:?} only {said:?} was sent (after {a:?})");
    }
    Ok(())
}

fn end(s: &mut Sim) -> Result<(), String> {
    if s.raced { return s.finale(); }
    s.apply(Act::Hangup);
    monitor(s, (Act::Hangup, None))?;
    let mut n = 0;
    while s.in_flight.is_some() {
        s.apply(Act::Sent);
        monitor(s, (Act::Sent, None))?;
        n += 1;
        ensure!(n < 50, "messages never stop");
    }
    for (id, due) in &s.due {
        let said = s.calls[id].events.iter().filter(|x| matches!(x, Ev::Hangup { .. })).count();
        ensure!(said == due.len(), "of {due:?} only {said} were sent");
    }
    Ok(())
}

/// How a call gets on, and then everything that could end it.
fn acts(s: &Sim, start: Act) -> Vec<Act> {
    let mut v = vec![];
    let Some(id) = s.active() else {
        if s.calls.is_empty() { v.push(start); }
        return v;
    };
    let t = &s.calls[&id];
    let peer = t.peer;
    if s.in_flight.is_some() { v.push(Act::Sent); }
    if s.call_state().as_deref() == Some("WaitingToProceed") { v.push(Act::Proceed(id)); }
    for d in [2, 3] {
        if t.outgoing && s.acts.contains(&Act::Proceed(id)) && s.in_flight.is_none() && !t.answers_in.contains(&d) && t.remote_accepts.is_empty() { v.push(Act::Answer { peer, id, dev: d }); }
        let Some(c) = s.conn_state(d) else { continue };
        if !t.ice_now.contains(&d) && !t.ice_ever.contains(&d) || c == "ReconnectingAfterAccepted" { v.push(Act::IceConnected(d)); }
        if t.ice_now.contains(&d) && c == "ConnectedAndAccepted" && s.acts.iter().filter(|a| matches!(a, Act::IceDisconnected(_))).count() < 2 { v.push(Act::IceDisconnected(d)); }
        if t.ice_now.contains(&d) && !t.media.contains(&d) { v.push(Act::Media(d)); }
        if t.outgoing && t.ice_now.contains(&d) && t.media.contains(&d) && t.remote_accepts.is_empty() { v.push(Act::RtpAccepted(d)); }
    }
    if !t.outgoing && !t.accepted && t.ice_ever.contains(&2) && t.media.contains(&2) { v.push(Act::Accept(id)); }
    if s.acts.iter().filter(|a| matches!(a, Act::RemoteHangup { .. } | Act::RtpHangup(..) | Act::RemoteBusy { .. })).count() >= 2 { return v; }
    let hangs = |d: Dev| [Hang::Normal, Hang::Accepted(LOCAL), Hang::Accepted(d ^ 1), Hang::Declined(LOCAL), Hang::Declined(d ^ 1), Hang::Busy(LOCAL), Hang::Busy(d ^ 1), Hang::Permission(None), Hang::Permission(Some(LOCAL)), Hang::Permission(Some(3))];
    v.extend([Act::Hangup, Act::Wait(61)]);
    for dev in [2, 3, 4] {
        for hang in hangs(dev) {
            v.push(Act::RemoteHangup { peer, id, dev, hang });
            if s.conn_state(dev).is_some() { v.push(Act::RtpHangup(dev, hang)); }
        }
        v.push(Act::RemoteBusy { peer, id, dev });
    }
    for (p, i) in [(3 - peer, id), (peer, id + 1), (peer, id - 1)] {
        v.push(Act::RemoteHangup { peer: p, id: i, dev: 2, hang: Hang::Normal });
        v.push(Act::RemoteHangup { peer: p, id: i, dev: 2, hang: Hang::Permission(None) });
        v.push(Act::RemoteBusy { peer: p, id: i, dev: 2 });
    }
    v
}

fn reached(s: &Sim) -> Vec<&'static str> {
    let mut v = crate::lifecycle::reached(s);
    if s.due.values().any(|d| d.iter().any(|h| h.starts_with("Declined"))) { v.push("declined: others told"); }
    if s.due.values().any(|d| d.iter().any(|h| h.starts_with("NeedPermission"))) { v.push("permission: others told"); }
    if s.due.values().any(|d| d.iter().any(|h| h.starts_with("Busy"))) { v.push("busy: others told"); }
    if s.due.values().any(|d| d.iter().any(|h| h.starts_with("Accepted"))) { v.push("accepted: others told"); }
    v
}

pub fn c34() {
    let mut c = Check::new("C34", "model_checking");
    let both: &[Act] = &[RINGING_OUT, &[Act::Answer { peer: 1, id: OUT, dev: 3 }, Act::IceConnected(3), Act::Media(2), Act::Media(3)]].concat();
    for (name, prefix, start, q, t) in [
        ("an outgoing call", &[][..], Act::Call { peer: 1, id: OUT }, 9, 12),
        ("an outgoing call ringing at two devices", both, Act::Sent, 4, 6),
        ("an outgoing call accepted", TALKING_OUT, Act::Sent, 4, 6),
        ("an incoming call", &[], Act::Offer { peer: 1, id: IN_LOW, dev: 2, expired: false }, 8, 10),
        ("an incoming call accepted", TALKING_IN, Act::Sent, 4, 6),
    ] {
        let scene = Scene { prefix, enabled: &|s| single(acts(s, start)), check: &monitor, end: &end, reached: &reached };
        let mut l = Limits::depth(pick(q, t));
        l.max_seconds = pick(60.0, 200.0);
        let st = c.paths(name, l, &|ch| explore(&scene, ch));
        eprintln!("   {:?} {:?}", st.levels, st.covered);
    }
    // two at once: what comes of it is what comes of one after the other
    let gone = |dev| Act::RemoteHangup { peer: 1, id: OUT, dev, hang: Hang::Normal };
    let busy = |dev| Act::RemoteBusy { peer: 1, id: OUT, dev };
    let left = |hang| Act::RemoteHangup { peer: 1, id: IN_LOW, dev: 2, hang };
    for (name, prefix, a, b) in [
        ("two devices decline", both, gone(2), gone(3)),
        ("one device declines, one accepts", both, Act::RtpAccepted(2), gone(3)),
        ("a device accepts and hangs up", both, Act::RtpAccepted(2), Act::RtpHangup(2, Hang::Normal)),
        ("both devices accept", both, Act::RtpAccepted(2), Act::RtpAccepted(3)),
        ("one device is busy, one accepts", both, Act::RtpAccepted(2), busy(3)),
        ("the user hangs up as a device accepts", both, Act::RtpAccepted(2), Act::Hangup),
        ("the user hangs up as a device declines", both, gone(2), Act::Hangup),
        ("the user hangs up, the other device is busy", both, busy(3), Act::Hangup),
        ("the user accepts as another device has", RINGING_IN, Act::Accept(IN_LOW), left(Hang::Accepted(3))),
        ("the user accepts as the caller hangs up", RINGING_IN, Act::Accept(IN_LOW), left(Hang::Normal)),
        ("the user accepts and hangs up", RINGING_IN, Act::Accept(IN_LOW), Act::Hangup),
        ("the user hangs up as the caller does", TALKING_IN, Act::Hangup, left(Hang::Normal)),
    ] {
        at_once(&mut c, name, prefix, a, b);
    }
    c.finish()
}

/// How the call ended, what was handed to the application for the other devices, and the last thing each was told
/// over its connection.
#[derive(Clone, Debug)]
struct Came { ended: Vec<String>, said: Vec<String>, rtp: Vec<bool> }
fn came_of_it(s: &Sim) -> Came {
    let (id, t) = s.calls.iter().next().unwrap();
    Came {
        ended: t.ended.clone(),
        said: t.events.iter().filter_map(|x| match x { Ev::Hangup { hangup, .. } => Some(hangup.clone()), _ => None }).collect(),
        rtp: [2, 3].iter().map(|&d| s.c.w.pc(*id, d).and_then(|p| p.last_sent_rtp_message()).is_some_and(|m| m.hangup.is_some())).collect(),
    }
}
impl Came {
    /// The same end, and nobody is left out.
    fn as_good_as(&self, o: &Came) -> bool {
        self.ended == o.ended && self.said.is_empty() == o.said.is_empty() && self.rtp.iter().zip(&o.rtp).all(|(a, b)| *a || !*b)
    }
}

fn at_once(c: &mut Check, name: &str, prefix: &[Act], a: Act, b: Act) {
    let drained = |s: &mut Sim| -> Result<(), String> {
        let mut n = 0;
        while s.in_flight.is_some() && n < 50 { s.apply(Act::Sent); n += 1; }
        Ok(())
    };
    let mut fine = vec![];
    for inputs in [[a, b], [b, a]] {
        let (r, _) = run(
            || {
                let mut s = Sim::new();
                for &x in prefix { s.apply(x); }
                for x in inputs {
                    // what is said on a connection that is gone is not heard
                    let gone = matches!(x, Act::RtpAccepted(d) | Act::RtpHangup(d, _) if s.conn(d).is_none());
                    if !gone { s.apply(x); }
                }
                drained(&mut s)?;
                let r = came_of_it(&s);
                s.close();
                Ok(r)
            },
            &mcstd::mc::Config { bound: 0, max_steps: 200_000, ..Default::default() },
            vec![],
        );
        fine.push(r.unwrap_or_else(|e| mclib::die(&e)));
    }
    race(c, name, pick(2, 3), pick(20, 120), prefix, &[a, b], &|_, _| Ok(()), &|s| {
        drained(s)?;
        let r = came_of_it(s);
        ensure!(fine.iter().any(|f| r.as_good_as(f)), "{a:?} and {b:?} at once: {r:?}; one after the other: {fine:?}");
        Ok(())
    });
}
