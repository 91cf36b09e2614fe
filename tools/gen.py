#!/usr/bin/env python3
"""Mirrors the compilable part of /repo into /verif/ws, by content.

Every source file is copied verbatim from /repo's working tree (and only rewritten when its content
differs, so that cargo rebuilds exactly what changed, whatever the mtimes in /repo are).  Only
manifests are generated:

  Cargo.toml            workspace without the git [patch] and webrtc-sys
  src/rust/Cargo.toml   git / uncached crates replaced by the stand-ins in /verif/stubs, std
                        replaced by /verif/mcstd (controlled threads, locks, channels, clock)
  mrp/Cargo.toml        same std replacement

and seven fakes in src/rust/src/webrtc/sim (test doubles of WebRTC that /repo's own tests use) are
replaced by those in /verif/stubs/sim, which remember the observers they are given.

VERIF_REPO overrides /repo (used only by developers, to look at a scratch copy).
"""
import os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.path.join(HERE, "ws")

FAKES = ("peer_connection.rs", "peer_connection_factory.rs", "peer_connection_observer.rs", "rtp_observer.rs",
         "ref_count.rs", "sdp_observer.rs", "stats_observer.rs")


def read(p):
    with open(os.path.join(REPO, p), encoding="utf-8") as f:
        return f.read()


def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    path = os.path.join(WS, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    tmp = path + ".tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


kept = set()


def copy_tree(rel, skip=()):
    for root, dirs, files in os.walk(os.path.join(REPO, rel)):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "out"))
        for f in sorted(files):
            p = os.path.join(root, f)
            r = os.path.relpath(p, REPO)
            if r in skip:
                continue
            with open(p, "rb") as fh:
                put(r, fh.read())
            kept.add(r)


def main():
    shadow = os.environ.get("VERIF_REAL_STD") is None
    own = {
        "Cargo.toml", "src/rust/Cargo.toml", "src/rust/build.rs", "mrp/Cargo.toml", "Cargo.lock",
    }
    # the fakes of WebRTC that /repo's own tests use, with ears (only with the shadow std)
    if shadow:
        own |= {"src/rust/src/webrtc/sim/" + f for f in FAKES}
    for d in ("mrp", "protobuf", "src/rust"):
        copy_tree(d, own)
    if shadow:
        for f in FAKES:
            with open(os.path.join(HERE, "stubs/sim", f), "rb") as fh:
                put("src/rust/src/webrtc/sim/" + f, fh.read())
            kept.add("src/rust/src/webrtc/sim/" + f)

    t = read("Cargo.toml")
    t = re.sub(r"^members = \[.*?^\]\n", 'members = ["mrp", "protobuf", "src/rust"]\n', t, flags=re.M | re.S)
    t = re.sub(r"^\[patch\.crates-io\]\n.*?(?=^\[|\Z)", "", t, flags=re.M | re.S)
    put("Cargo.toml", t)
    kept.add("Cargo.toml")

    std = 'std = { package = "mcstd", path = "%s/mcstd" }\n' % HERE if shadow else ""
    t = read("src/rust/Cargo.toml")
    t = re.sub(r"^\[\[bin\]\]\n.*?(?=^\[|\Z)", "", t, flags=re.M | re.S)
    for c in ("zkgroup", "libsignal-core", "x25519-dalek"):
        t = re.sub(
            rf"^{re.escape(c)}\s*=\s*\{{[^\n]*\n",
            f'{c} = {{ path = "{HERE}/stubs/{c}"'
            + (', features = ["static_secrets"]' if c == "x25519-dalek" else "")
            + " }\n",
            t,
            flags=re.M,
        )
    t = t.replace("[package]\n", "[package]\nautobins = false\n", 1)
    t = re.sub(r"^crate-type = .*$", 'crate-type = ["lib"]', t, flags=re.M)
    t = t.replace("[dependencies]\n", "[dependencies]\n" + std, 1)
    put("src/rust/Cargo.toml", t)
    kept.add("src/rust/Cargo.toml")
    put("src/rust/build.rs", 'fn main() {\n    println!("cargo:rerun-if-changed=build.rs");\n}\n')
    kept.add("src/rust/build.rs")

    t = read("mrp/Cargo.toml")
    t = t.replace("[dependencies]\n", "[dependencies]\n" + std, 1)
    put("mrp/Cargo.toml", t)
    kept.add("mrp/Cargo.toml")

    # drop what /repo no longer has
    for root, dirs, files in os.walk(WS):
        dirs[:] = [d for d in dirs if d != "target"]
        for f in files:
            r = os.path.relpath(os.path.join(root, f), WS)
            if r not in kept and r != "Cargo.lock":
                os.unlink(os.path.join(root, f))
    return 0


sys.exit(main())
