//! Group calls: C22.. - the real group call client under every input sequence within bounds.
mod world;
mod keys;
mod recv;
mod view;
mod sfu;
mod life;
mod rings;
mod send;
mod polled;
mod descr;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C22" => keys::c22(),
        "C23" => recv::c23(),
        "C24" => view::c24(),
        "C25" => sfu::c25(),
        "C26" => sfu::c26(),
        "C27" => life::c27(),
        "C28" => rings::c28(),
        "C29" => send::c29(),
        "C30" => polled::c30(),
        "C31" => polled::c31(),
        "C41" => descr::c41(),
        _ => mclib::die("which property?"),
    }
}
