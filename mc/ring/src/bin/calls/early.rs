//! C35: messages that arrive before their offer.
use mclib::{Check, bfs::Limits, ensure, pick};

use crate::{lifecycle::*, sim::*, world::*};

const MOST: usize = 30;

fn keep(s: &mut Sim, id: Id, peer: u8, new: Kept) {
    let e = &mut s.early;
    match (&mut e.kept, new) {
        (Some((i, _, Kept::Ice(l))), Kept::Ice(n)) if *i == id => {
            l.extend(n);
            let over = l.len().saturating_sub(MOST);
            l.drain(..over);
        }
        // candidates are of no use after a hangup
        (Some((i, _, Kept::Hang(..))), Kept::Ice(_)) if *i == id => {}
        (k, new) => *k = Some((id, peer, new)),
    }
}

/// Whether a message for a call that is not the active one is kept.
fn keeps(s: &Sim) -> bool {
    s.prev_active.is_none_or(|x| s.calls[&x].outgoing)
}

fn monitor(s: &mut Sim, (a, _): Input) -> Result<(), String> {
    match a {
        Act::IceMany { peer, id, dev, n } => {
            let new: Vec<u16> = (s.addresses - n..s.addresses).collect();
            if s.prev_active == Some(id) {
                if s.calls[&id].peer == peer { s.early.wanted.entry(id).or_default().extend(&new); }
            } else if keeps(s) {
                for x in new { keep(s, id, peer, Kept::Ice(vec![(dev, x)])); }
            }
            if s.prev_active != Some(id) { ensure!(s.last.is_empty(), "{a:?} did {:?}", s.last); }
        }
        Act::RemoteHangup { peer, id, dev, hang } if s.prev_active != Some(id) => {
            if keeps(s) { keep(s, id, peer, Kept::Hang(dev, hang)); }
            ensure!(s.last.is_empty(), "{a:?} did {:?}", s.last);
        }
        _ => {}
    }
    let started = s.last.iter().find_map(|e| match e { Ev::Start { id, outgoing: false, .. } => Some(*id), _ => None });
    if let Some(id) = started {
        let peer = s.calls[&id].peer;
        let mut ends = None;
        match s.early.kept.take() {
            Some((i, p, Kept::Ice(l))) if i == id && p == peer => { s.early.wanted.insert(id, l.into_iter().map(|x| x.1).collect()); }
            Some((i, p, Kept::Hang(_, h))) if i == id && p == peer => ends = match h {
                Hang::Accepted(LOCAL) | Hang::Declined(LOCAL) | Hang::Busy(LOCAL) => None,
                Hang::Accepted(_) => Some("RemoteHangupAccepted"),
                Hang::Declined(_) => Some("RemoteHangupDeclined"),
                Hang::Busy(_) => Some("RemoteHangupBusy"),
                _ => Some("RemoteHangup"),
            },
            _ => {}
        }
        match ends {
            Some(r) => ensure!(s.calls[&id].ended == [r], "the call was hung up before its offer came ({r}), and the call {:?}", s.calls[&id].ended),
            None => ensure!(s.active() == Some(id), "nobody hung up, and the call {:?}", s.calls[&id].ended),
        }
    } else if let Act::Offer { id, .. } = a {
        ensure!(s.active() != Some(id), "started and not started");
    }
    for (id, t) in &s.calls {
        let want = s.early.wanted.get(id).cloned().unwrap_or_default();
        let Some(pc) = s.c.w.pc(*id, 2).filter(|_| !t.outgoing) else { continue };
        let got: Vec<u16> = pc.removed_ice_candidates().iter().map(|a| a.port() - 1000).collect();
        ensure!(if s.active() == Some(*id) { got == want } else { want.starts_with(&got) }, "the peer sent the candidates {want:?} for call {id}, and the connection was given {got:?}");
    }
    Ok(())
}

fn end(s: &mut Sim) -> Result<(), String> {
    // the offers that have not come yet
    let mut n = 0;
    while s.in_flight.is_some() && n < 20 { s.apply(Act::Sent); n += 1; }
    if s.active().is_some() {
        if s.call_state().as_deref() == Some("WaitingToProceed") {
            let a = Act::Proceed(s.active().unwrap());
            s.apply(a);
            monitor(s, (a, None))?;
        }
        s.apply(Act::Hangup);
        monitor(s, (Act::Hangup, None))?;
        while s.in_flight.is_some() && n < 20 { s.apply(Act::Sent); n += 1; }
    }
    for id in [IN_LOW, IN_HIGH] {
        if s.calls.contains_key(&id) { continue; }
        for a in [Act::Offer { peer: 1, id, dev: 2, expired: false }, Act::Proceed(id), Act::Sent, Act::Hangup, Act::Sent] {
            if !matches!(a, Act::Offer { .. }) && s.active() != Some(id) { continue; }
            s.apply(a);
            monitor(s, (a, None))?;
        }
    }
    Ok(())
}

fn acts(s: &Sim, many: bool) -> Vec<Act> {
    let mut v = vec![];
    let calls = s.calls.iter().filter(|(_, t)| t.starts > 0).count();
    if s.in_flight.is_some() && calls < 2 { v.push(Act::Sent); }
    for id in [IN_LOW, IN_HIGH] {
        let over = s.calls.get(&id).is_some_and(|t| !t.ended.is_empty());
        for peer in [1, 2] {
            v.push(Act::IceMany { peer, id, dev: 2, n: 1 });
            if peer == 1 && many { v.push(Act::IceMany { peer, id, dev: 2, n: 29 }); }
            if over || s.active() == Some(id) { continue; }
            for hang in [Hang::Normal, Hang::Accepted(3), Hang::Accepted(LOCAL), Hang::Declined(3), Hang::Busy(3), Hang::Permission(None)] {
                if peer == 1 && (!many || hang == Hang::Normal) || matches!(hang, Hang::Normal) { v.push(Act::RemoteHangup { peer, id, dev: 2, hang }); }
            }
        }
        if !s.calls.contains_key(&id) {
            v.push(Act::Offer { peer: 1, id, dev: 2, expired: false });
            if id == IN_LOW { v.push(Act::Offer { peer: 1, id, dev: 2, expired: true }); }
        }
    }
    if !s.calls.contains_key(&OTHER) { v.push(Act::Offer { peer: 2, id: OTHER, dev: 2, expired: false }); }
    match s.active() {
        None => if !s.calls.contains_key(&OUT) { v.push(Act::Call { peer: 1, id: OUT }) },
        Some(id) => {
            v.push(Act::Hangup);
            if s.call_state().as_deref() == Some("WaitingToProceed") { v.push(Act::Proceed(id)); }
        }
    }
    v
}

fn reached(s: &Sim) -> Vec<&'static str> {
    let mut v = crate::lifecycle::reached(s);
    match &s.early.kept {
        Some((_, _, Kept::Ice(l))) => v.push(if l.len() == MOST { "as many candidates as are kept" } else { "candidates kept" }),
        Some((_, _, Kept::Hang(..))) => v.push("hangup kept"),
        None => {}
    }
    for (id, w) in &s.early.wanted { if w.len() > 1 && s.c.w.pc(*id, 2).is_some_and(|p| p.removed_ice_candidates().len() > 1) { v.push("early candidates arrived"); } }
    v
}

pub fn c35() {
    let mut c = Check::new("C35", "model_checking");
    let calling: &[Act] = &[Act::Call { peer: 1, id: OUT }, Act::Proceed(OUT), Act::Sent];
    for (name, prefix, many, q, t) in [
        ("before any call", &[][..], false, 4, 5),
        ("many candidates", &[], true, 4, 5),
        ("while calling", calling, false, 4, 5),
    ] {
        let scene = Scene { prefix, enabled: &|s| single(acts(s, many)), check: &monitor, end: &end, reached: &reached };
        let mut l = Limits::depth(pick(q, t));
        l.max_seconds = pick(90.0, 250.0);
        let st = c.paths(name, l, &|ch| explore(&scene, ch));
        eprintln!("   {:?} {:?}", st.levels, st.covered);
    }
    let ice = |n| Act::IceMany { peer: 1, id: IN_LOW, dev: 2, n };
    let offer = Act::Offer { peer: 1, id: IN_LOW, dev: 2, expired: false };
    for (name, prefix, inputs) in [
        ("candidates while the call proceeds", &[offer][..], &[ice(1), Act::Proceed(IN_LOW), ice(1)][..]),
        ("candidates around the offer", &[], &[ice(2), offer, ice(1)]),
        ("a hangup, the offer and candidates", &[], &[Act::RemoteHangup { peer: 1, id: IN_LOW, dev: 2, hang: Hang::Normal }, offer, ice(1)]),
    ] {
        let hung = inputs.iter().any(|a| matches!(a, Act::RemoteHangup { .. }));
        race(&mut c, name, pick(2, 3), pick(30, 120), prefix, inputs, &|_, _| Ok(()), &|s| {
            if hung {
                ensure!(s.calls[&IN_LOW].ended == ["RemoteHangup"], "hung up, and the call {:?}", s.calls[&IN_LOW].ended);
                return Ok(());
            }
            if !s.acts.contains(&Act::Proceed(IN_LOW)) { s.apply(Act::Proceed(IN_LOW)); }
            let got: Vec<u16> = s.c.w.pc(IN_LOW, 2).ok_or("no connection")?.removed_ice_candidates().iter().map(|a| a.port() - 1000).collect();
            ensure!(got == (0..s.addresses).collect::<Vec<_>>(), "the connection was given {got:?} of {} candidates", s.addresses);
            Ok(())
        });
    }
    c.finish()
}
