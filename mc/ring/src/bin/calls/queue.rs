//! C20: signaling messages leave one at a time, in order, each once.
use mclib::{Check, bfs::Limits, ensure, pick};

use crate::{lifecycle::*, sim::*, world::*};

const FAULTS: &[&str] = &["on_send_offer", "on_send_answer", "on_send_ice", "on_send_hangup", "on_send_busy"];

fn acts(s: &Sim, faults: bool) -> Vec<Act> {
    let mut v = vec![];
    let new = |id: Id| !s.calls.contains_key(&id);
    if s.in_flight.is_some() { v.extend([Act::Sent, Act::Failed]); }
    if faults {
        if s.acts.iter().any(|a| matches!(a, Act::Fault(_))) {
            if !s.c.w.faults.lock().unwrap().is_empty() { v.push(Act::Repaired); }
        } else {
            v.extend(FAULTS.iter().map(|f| Act::Fault(f)));
        }
    }
    if new(OTHER) { v.push(Act::Offer { peer: 2, id: OTHER, dev: 2, expired: false }); }
    let Some(id) = s.active() else {
        if new(OUT) { v.push(Act::Call { peer: 1, id: OUT }); }
        else if new(OUT3) { v.push(Act::Call { peer: 1, id: OUT3 }); }
        if new(IN_LOW) { v.push(Act::Offer { peer: 1, id: IN_LOW, dev: 2, expired: false }); }
        return v;
    };
    if s.resets == 0 { v.push(Act::Reset); }
    let t = &s.calls[&id];
    let peer = t.peer;
    v.push(Act::Hangup);
    if t.outgoing && new(IN_HIGH) { v.push(Act::Offer { peer: 1, id: IN_HIGH, dev: 2, expired: false }); }
    let st = s.call_state().unwrap_or_default();
    if st == "WaitingToProceed" { v.push(Act::Proceed(id)); return v; }
    if t.outgoing {
        for dev in [2, 3] {
            if !t.answers_in.contains(&dev) { v.push(Act::Answer { peer, id, dev }); }
        }
        v.push(Act::RemoteBusy { peer, id, dev: 2 });
    } else if !t.accepted && t.media.contains(&2) {
        v.push(Act::Accept(id));
    }
    if t.answers_in.contains(&2) || !t.outgoing { v.push(Act::RemoteHangup { peer, id, dev: 2, hang: Hang::Normal }); }
    for d in 0..=3 {
        let Some(cs) = s.conn_state(d) else { continue };
        if s.gathered < 3 { v.push(Act::Gathered(d)); }
        if d == 0 || cs == "IceFailed" { continue; }
        if t.outgoing && !s.acts.contains(&Act::GatheredShared(d)) { v.push(Act::GatheredShared(d)); }
        v.push(if t.ice_now.contains(&d) { Act::IceDisconnected(d) } else { Act::IceConnected(d) });
        if t.ice_now.contains(&d) && !t.media.contains(&d) { v.push(Act::Media(d)); }
        if t.outgoing && t.media.contains(&d) && t.ice_now.contains(&d) && !t.remote_accepts.contains(&d) { v.push(Act::RtpAccepted(d)); }
    }
    v
}

fn monitor(s: &mut Sim, (a, _): Input) -> Result<(), String> {
    ensure!(s.overlap.is_empty(), "sent before the message ahead of it was confirmed: {:?}", s.overlap);
    for (&id, t) in &s.calls {
        let ended = !t.ended.is_empty();
        let mut over = false;
        let (mut offers, mut answers) = (0, 0);
        for e in &t.events {
            match e {
                Ev::Ended { .. } => over = true,
                Ev::Offer { .. } => {
                    offers += 1;
                    ensure!(t.outgoing && s.acts.contains(&Act::Proceed(id)), "an offer for call {id}");
                    ensure!(!over || s.raced, "an offer after the end of the call");
                }
                Ev::Answer { dev, .. } => {
                    answers += 1;
                    ensure!(!t.outgoing && s.acts.contains(&Act::Proceed(id)) && *dev == 2, "{e:?} for call {id}");
                    ensure!(!over || s.raced, "an answer after the end of the call");
                }
                Ev::Ice { dev, what, .. } => {
                    ensure!(!what.is_empty(), "an empty ICE message");
                    ensure!(!over || s.raced, "{e:?} after the end of the call");
                    ensure!(offers + answers > 0, "{e:?} before the offer or answer");
                    ensure!(t.outgoing || *dev == Some(2), "{e:?} to another device than the one that called");
                }
                _ => {}
            }
        }
        ensure!(offers <= 1 && answers <= 1, "{offers} offers, {answers} answers");
        for d in 0..=3 {
            let (sent, gathered) = (t.sent.get(&d).cloned().unwrap_or_default(), t.gathered.get(&d).cloned().unwrap_or_default());
            ensure!(gathered.starts_with(&sent), "on connection {d}, {gathered:?} were gathered and {sent:?} sent");
            if !s.flight && !s.released && !ended && s.resets == 0 {
                ensure!(gathered == sent, "nothing is on its way, but of {gathered:?} only {sent:?} were sent on connection {d}");
            }
        }
        if !s.flight && !s.released && !ended && s.resets == 0 && s.acts.contains(&Act::Proceed(id)) && s.active() == Some(id) {
            ensure!(offers + answers == 1, "nothing is on its way, and the call has not been offered or answered");
        }
        if t.events.iter().any(|e| matches!(e, Ev::Refused { .. })) && s.active() == Some(id) {
            return Err("the call goes on although the application could not send its message".into());
        }
    }
    // the application cannot send: the call ends, unless it is connected and only ICE was lost
    if let (Act::Failed, Some((id, m)), Some(st)) = (a, &s.prev_in_flight, &s.prev_state) {
        let t = &s.calls[id];
        if s.prev_active == Some(*id) {
            let harmless = matches!(m, Ev::Ice { .. }) && matches!(st.as_str(), "ConnectedBeforeAccepted" | "ConnectedAndAccepted" | "ReconnectingAfterAccepted");
            if t.events.iter().any(|e| matches!(e, Ev::Refused { .. })) {
                // the next message could not be sent either
            } else if harmless {
                ensure!(t.ended.is_empty() && s.active() == Some(*id), "an ICE message was lost while connected, and the call ended: {:?}", t.ended);
            } else {
                ensure!(t.ended == ["SignalingFailure"], "{m:?} could not be sent, but the call {:?}", t.ended);
            }
        } else if let (Some(x), false) = (s.prev_active, s.raced) {
            ensure!(s.active() == Some(x) || s.last.iter().any(|e| matches!(e, Ev::Refused { id, .. } if *id == x)), "{m:?} of an earlier call could not be sent, and call {x} ended");
        }
    }
    // a message that was refused ends its call, if that goes on
    for e in &s.last {
        if let Ev::Refused { id, .. } = e && s.prev_active == Some(*id) && !s.raced && a != Act::Reset {
            let t = &s.calls[id];
            ensure!(t.ended.len() == 1 && (t.ended[0] == "InternalFailure" || a != Act::Sent), "{e:?}, but the call {:?}", t.ended);
        }
    }
    Ok(())
}

fn end(s: &mut Sim) -> Result<(), String> {
    if !s.flight && !s.released {
        let before = s.order.len();
        s.in_flight = None;
        s.apply(Act::Sent);
        ensure!(s.order.len() == before, "a message waited although none was on its way: {:?}", s.order.last());
    }
    s.apply(Act::Repaired);
    s.finale()?;
    monitor(s, (Act::Sent, None))?;
    // another call still gets its messages through
    s.apply(Act::Call { peer: 1, id: 999 });
    s.apply(Act::Proceed(999));
    ensure!(matches!(s.last.last(), Some(Ev::Offer { id: 999, .. })), "the next call is not offered: {:?}", s.last);
    s.apply(Act::Sent);
    s.apply(Act::Gathered(0));
    ensure!(matches!(s.last.last(), Some(Ev::Ice { id: 999, .. })), "the next call's candidate is not sent: {:?}", s.last);
    s.finale()?;
    // messages of a call that was over come before those of a call that began later
    for (i, e) in s.order.iter().enumerate() {
        for f in &s.order[..i] {
            let (x, y) = (e.id().unwrap(), f.id().unwrap());
            let log = s.c.w.log.lock().unwrap();
            let at = |what: &dyn Fn(&Ev) -> bool| log.iter().position(what);
            if let (Some(over), Some(start)) = (at(&|e| matches!(e, Ev::Ended { id, .. } if *id == x)), at(&|e| matches!(e, Ev::Start { id, .. } if *id == y))) {
                ensure!(x == y || over > start, "{e:?} of the earlier call {x} came after {f:?}");
            }
        }
    }
    Ok(())
}

fn reached(s: &Sim) -> Vec<&'static str> {
    let mut v = vec![];
    if s.order.iter().any(|e| matches!(e, Ev::Ice { dev: None, .. })) { v.push("broadcast ICE"); }
    if s.order.iter().any(|e| matches!(e, Ev::Ice { what, .. } if what.len() > 1)) { v.push("several candidates at once"); }
    if s.order.iter().any(|e| matches!(e, Ev::Busy { .. })) { v.push("busy"); }
    for t in s.calls.values() {
        if t.events.iter().any(|e| matches!(e, Ev::Refused { .. })) { v.push("refused"); }
        if t.ended.iter().any(|e| e == "SignalingFailure") { v.push("SignalingFailure"); }
    }
    v
}

pub fn c20() {
    let mut c = Check::new("C20", "model_checking");
    for (name, prefix, faults, q, t) in [
        ("from nothing", &[][..], true, 7, 9),
        ("from an outgoing call ringing", RINGING_OUT, false, 5, 7),
        ("from an outgoing call accepted", TALKING_OUT, true, 4, 6),
        ("from an incoming call ringing", RINGING_IN, true, 5, 7),
        ("from an offer that is on its way", &[Act::Call { peer: 1, id: OUT }, Act::Proceed(OUT)], true, 5, 7),
    ] {
        let scene = Scene { prefix, enabled: &|s| single(acts(s, faults)), check: &monitor, end: &end, reached: &reached };
        let mut l = Limits::depth(pick(q, t));
        l.max_seconds = pick(40.0, 150.0);
        let st = c.paths(name, l, &|ch| explore(&scene, ch));
        eprintln!("   {:?} {:?}", st.levels, st.covered);
    }
    let offered: &[Act] = &[Act::Call { peer: 1, id: OUT }, Act::Proceed(OUT)];
    let answering: &[Act] = &[Act::Offer { peer: 1, id: IN_LOW, dev: 2, expired: false }, Act::Proceed(IN_LOW)];
    for (more, name, prefix, inputs) in [
        (2, "candidates while the offer is confirmed", offered, &[Act::Gathered(0), Act::Sent, Act::Gathered(0)][..]),
        (2, "candidates while the answer is confirmed", answering, &[Act::Gathered(2), Act::Sent, Act::Gathered(2)]),
        (2, "candidates one after the other", RINGING_OUT, &[Act::Gathered(0), Act::Gathered(0), Act::Gathered(0)]),
        (0, "candidates and a hang-up", RINGING_OUT, &[Act::Gathered(0), Act::Hangup]),
        (0, "candidates and an answer", &[offered, &[Act::Sent]].concat(), &[Act::Gathered(0), Act::Answer { peer: 1, id: OUT, dev: 2 }, Act::Gathered(0)]),
        (0, "candidates and an offer of somebody else", RINGING_IN, &[Act::Gathered(2), Act::Offer { peer: 2, id: OTHER, dev: 2, expired: false }, Act::Gathered(2)]),
        (0, "the offer fails while a candidate comes", offered, &[Act::Gathered(0), Act::Failed]),
    ] {
        race(&mut c, name, more + pick(2, 3), pick(20, 120), prefix, inputs, &monitor, &end);
    }
    c.finish()
}
