//! Direct calls: C18.. - one real call manager (or several) under every input sequence within bounds.
mod world;
mod sim;
mod lifecycle;
mod media;
mod queue;
mod linked;
mod rtp;
mod hangups;
mod early;
mod keys;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C18" => lifecycle::c18(),
        "C19" => media::c19(),
        "C20" => queue::c20(),
        "C21" => linked::c21(),
        "C32" => rtp::c32(),
        "C33" => rtp::c33(),
        "C34" => hangups::c34(),
        "C35" => early::c35(),
        "C40" => keys::c40(),
        _ => mclib::die("which property?"),
    }
}
