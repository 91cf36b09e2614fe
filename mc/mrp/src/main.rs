//! C01 reliable delivery, C02 window / acknowledgement / retransmission rules, C03 fragmentation:
//! explicit-state search over two real `MrpStream`s and an adversarial network.
mod frag;
mod link;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C01" => link::c01(),
        "C02" => link::c02(),
        "C03" => frag::c03(),
        x => mclib::die(&format!("unknown property {x}")),
    }
}
