// The functions of WebRTC that no harness calls stay undefined.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bins=-Wl,--unresolved-symbols=ignore-all");
}
