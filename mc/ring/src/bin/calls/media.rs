//! C19: media flows only with the device the call was accepted on, and only once it was accepted.
use mclib::{Check, bfs::Limits, ensure, pick};

use crate::{lifecycle::*, sim::*, world::*};

fn acts(s: &Sim) -> Vec<Act> {
    let mut v = vec![];
    if s.calls.is_empty() {
        return vec![Act::Call { peer: 1, id: OUT }, Act::Offer { peer: 1, id: IN_LOW, dev: 2, expired: false }];
    }
    let Some(id) = s.active() else { return v };
    if s.in_flight.is_some() { v.push(Act::Sent); }
    let t = &s.calls[&id];
    let st = s.call_state().unwrap_or_default();
    if st == "WaitingToProceed" { v.push(Act::Proceed(id)); }
    if t.outgoing {
        for dev in [2, 3] {
            if st != "WaitingToProceed" && !t.answers_in.contains(&dev) { v.push(Act::Answer { peer: t.peer, id, dev }); }
            if t.answers_in.contains(&dev) { v.push(Act::RemoteHangup { peer: t.peer, id, dev, hang: Hang::Normal }); }
        }
    } else if !t.accepted {
        v.push(Act::Accept(id));
    }
    for d in 1..=3 {
        let Some(cs) = s.conn_state(d) else { continue };
        if cs == "IceFailed" { continue; }
        v.push(if t.ice_now.contains(&d) { Act::IceDisconnected(d) } else { Act::IceConnected(d) });
        v.push(Act::IceFailed(d));
        if !t.media.contains(&d) { v.push(Act::Media(d)); }
        if t.outgoing {
            v.push(Act::RtpAccepted(d));
            v.push(Act::RtpAcceptedOther(d));
        }
    }
    v.push(Act::Hangup);
    v
}

fn monitor(s: &mut Sim, (a, _): Input) -> Result<(), String> {
    for (&id, t) in &s.calls {
        // the device the call is accepted on, as the outside sees it
        let mut winner = None;
        for d in 0..=3 {
            let on = s.c.w.pc(id, d).is_some_and(|p| p.outgoing_audio_enabled());
            if on {
                ensure!(winner.is_none(), "call {id} sends media to devices {winner:?} and {d}");
                winner = Some(d);
                ensure!(d != 0, "media on the connection that only gathers candidates");
                if t.outgoing {
                    ensure!(t.remote_accepts.contains(&d), "media to device {d}, which has not accepted");
                    ensure!(t.ice_ever.contains(&d), "media to device {d}, which was never connected");
                } else {
                    ensure!(t.accepted, "media before the user accepted the call");
                }
            }
        }
        for &d in &t.media_connected {
            ensure!(winner == Some(d), "the media of device {d} was connected, but {winner:?} is the device the call was accepted on");
        }
        let connected = t.events.iter().filter(|e| matches!(e, Ev::MediaConnected { .. })).count();
        ensure!(connected <= 1, "media was connected {connected} times");
        ensure!(t.outgoing == (t.rtp_sent("accepted") == 0) || (!t.outgoing && t.rtp_sent("accepted") == 0), "accepted was sent for an outgoing call");
        ensure!(t.accepted || t.rtp_sent("accepted") == 0, "accepted was sent before the user accepted");
        // what the application is told
        let (yes, no) = if t.outgoing { ("Remote", "Local") } else { ("Local", "Remote") };
        for e in ["Accepted", "Ringing"] {
            ensure!(t.told(&format!("{no}{e}")) == 0, "{no}{e} on the wrong side");
            ensure!(t.told(&format!("{yes}{e}")) <= 1, "{yes}{e} twice");
        }
        let accepted = t.told(&format!("{yes}Accepted")) == 1;
        if accepted {
            ensure!(winner.is_some() && connected == 1, "the application was told that the call is accepted, but the media is not on");
            ensure!(t.told(&format!("{yes}Ringing")) == 1, "accepted without ringing");
            // (a hang-up that comes while the acceptance is being worked on takes its place)
            ensure!(t.outgoing || t.rtp_sent("accepted") > 0 || (s.raced && !t.ended.is_empty() && t.rtp_sent("hangup") > 0), "the peer was not told that the user has accepted");
        }
        ensure!(accepted || (t.told("Reconnecting") == 0 && t.told("Reconnected") == 0), "reconnecting before the call was accepted");
        for e in &s.last {
            if let Ev::Event { id: i, event, .. } = e && *i == id {
                if event == "Reconnecting" && !s.raced { ensure!(a == Act::IceDisconnected(winner.unwrap()), "Reconnecting after {a:?}"); }
                if event == "Reconnected" && !s.raced { ensure!(a == Act::IceConnected(winner.unwrap()), "Reconnected after {a:?}"); }
            }
        }
        let over = t.events.iter().filter(|e| matches!(e, Ev::Ended { .. })).count() == 1;
        if over {
            continue;
        }
        // what has to have happened while the call is going on
        if t.outgoing {
            let able: Vec<_> = t.remote_accepts.iter().filter(|d| t.ice_now.contains(d) && s.conn(**d).is_some()).collect();
            ensure!(able.is_empty() || accepted, "device {able:?} is connected and has accepted, but the call is not accepted");
            let first = t.events.iter().any(|e| matches!(e, Ev::MediaConnected { .. }));
            ensure!(first == accepted, "media connected, but the application was not told");
        } else {
            let rang = t.told("LocalRinging") == 1;
            if t.accepted && s.acts.iter().position(|x| *x == Act::Accept(id)) > s.acts.iter().position(|x| matches!(x, Act::IceConnected(_))) && rang && !t.ice_ever.is_empty() {
                ensure!(accepted, "the user accepted the ringing call, and nothing happened");
            }
        }
        let ring = !t.ice_ever.is_empty();
        ensure!(!ring || t.told(&format!("{yes}Ringing")) == 1, "connected, but not ringing");
        // reconnecting and reconnected follow the connection
        if let (true, Some(w)) = (accepted, winner) {
            let (x, y) = (t.told("Reconnecting"), t.told("Reconnected"));
            ensure!(x == y || x == y + 1, "{x} times reconnecting, {y} times reconnected");
            let up = t.ice_now.contains(&w);
            let was_up = s.acts.iter().any(|x| matches!(x, Act::IceDisconnected(d) if *d == w));
            ensure!(!up || x == y, "connected again, but the application still thinks it is reconnecting");
            // (a connection that was down when the call was accepted is not announced as reconnecting)
            if was_up && a == Act::IceDisconnected(w) && s.prev_state.as_deref() == Some("ConnectedAndAccepted") && s.prev_conn_up {
                ensure!(x == y + 1, "disconnected, but the application was not told");
            }
        }
    }
    if s.raced {
        return Ok(());
    }
    // a call does not end because it is accepted, when its media is there
    if let (Some(id), Act::RtpAccepted(d)) = (s.prev_active, a) {
        let t = &s.calls[&id];
        ensure!(t.ended.is_empty() || !t.media.contains(&d), "the call ended when device {d} accepted: {:?}", t.ended);
    }
    if let (Some(id), Act::Accept(_) | Act::RtpAcceptedOther(_)) = (s.prev_active, a) {
        let t = &s.calls[&id];
        ensure!(t.ended.is_empty() || (!t.outgoing && t.media.is_empty()), "the call ended at {a:?}: {:?}", t.ended);
    }
    Ok(())
}

fn end(s: &mut Sim) -> Result<(), String> {
    s.finale()?;
    for (id, t) in &s.calls {
        let on = t.media_connected.len();
        let off = s.c.w.log.lock().unwrap().iter().filter(|e| matches!(e, Ev::MediaDisconnected { ctx } if *ctx == *id as u32)).count();
        ensure!(off <= 1 && off >= on, "the media of call {id} was connected {on} times and disconnected {off} times");
    }
    Ok(())
}

fn reached(s: &Sim) -> Vec<&'static str> {
    let mut v = vec![];
    for t in s.calls.values() {
        if t.told("RemoteAccepted") > 0 { v.push("outgoing call accepted"); }
        if t.told("LocalAccepted") > 0 { v.push("incoming call accepted"); }
        if t.remote_accepts.len() > 1 { v.push("accepted on two devices"); }
        if t.told("Reconnected") > 0 { v.push("reconnected"); }
        if t.ended.iter().any(|e| e == "InternalFailure") { v.push("accepted without media"); }
    }
    v
}

pub fn c19() {
    let mut c = Check::new("C19", "model_checking");
    let fork: &[Act] = &[
        Act::Call { peer: 1, id: OUT }, Act::Proceed(OUT), Act::Sent, Act::Answer { peer: 1, id: OUT, dev: 2 }, Act::Answer { peer: 1, id: OUT, dev: 3 },
        Act::Media(2), Act::Media(3),
    ];
    let incoming: &[Act] = &[Act::Offer { peer: 1, id: IN_LOW, dev: 2, expired: false }, Act::Proceed(IN_LOW), Act::Sent];
    for (name, prefix, q, t) in [("from nothing", &[][..], 9, 13), ("two devices have answered", fork, 7, 11), ("incoming call answered", incoming, 10, 16)] {
        let scene = Scene { prefix, enabled: &|s| single(acts(s)), check: &monitor, end: &end, reached: &reached };
        let mut l = Limits::depth(pick(q, t));
        l.max_seconds = pick(30.0, 200.0);
        let st = c.paths(name, l, &|ch| explore(&scene, ch));
        eprintln!("   {:?} {:?}", st.levels, st.covered);
    }
    let ringing: &[Act] = &[fork, &[Act::IceConnected(2), Act::IceConnected(3)]].concat();
    let ring_in: &[Act] = &[incoming, &[Act::IceConnected(2), Act::Media(2)]].concat();
    let normal = |id, dev| Act::RemoteHangup { peer: 1, id, dev, hang: Hang::Normal };
    for (name, prefix, inputs) in [
        ("accepted on both devices", ringing, &[Act::RtpAccepted(2), Act::RtpAccepted(3)][..]),
        ("accepted on one device, declined on the other", ringing, &[Act::RtpAccepted(2), normal(OUT, 3)]),
        ("accepted and hung up", ringing, &[Act::RtpAccepted(2), Act::Hangup]),
        ("accepted and disconnected", ringing, &[Act::RtpAccepted(2), Act::IceDisconnected(2)]),
        ("accepted before either is connected", fork, &[Act::RtpAccepted(2), Act::IceConnected(2), Act::IceConnected(3), Act::RtpAccepted(3)]),
        ("the user accepts and hangs up", ring_in, &[Act::Accept(IN_LOW), Act::Hangup]),
        ("the user accepts while the peer hangs up", ring_in, &[Act::Accept(IN_LOW), normal(IN_LOW, 2)]),
        ("the user accepts while the connection goes down and up", ring_in, &[Act::Accept(IN_LOW), Act::IceDisconnected(2), Act::IceConnected(2)]),
    ] {
        race(&mut c, name, pick(2, 3), pick(20, 100), prefix, inputs, &monitor, &end);
    }
    c.finish()
}
