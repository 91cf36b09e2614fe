#!/usr/bin/env python3
"""plant.py SPEC.py...: makes seeded/<id>/ from bug specifications and tries them.

A specification is a Python file with BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust, env={})].
For each: edits /repo, writes the patch, builds and runs the stable tests, runs the demonstration with and
without the change and the property's check with it, and undoes the change.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, time
V = pathlib.Path("/verif"); R = pathlib.Path("/repo")
DEMO = '''#!/bin/bash
# Builds demo.rs against the tree in /repo as the official build lays it out and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/gen.py || exit 2
work=$(mktemp -d /tmp/demo.XXXXXX)
trap '/bin/rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp /opt/vp/ws/Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
ringrtc = { path = "/opt/vp/ws/src/rust", features = ["native", "simnet", "sim_http", "virtual_audio"] }
mrp = { path = "/opt/vp/ws/mrp" }
anyhow = "1"
[workspace]
EOT
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export RUSTFLAGS="-Clink-arg=-Wl,--unresolved-symbols=ignore-all"
%s
cd "$work" || exit 2
cargo build --offline >build.log 2>&1 || { tail -40 build.log; exit 2; }
timeout 120 "$work/target/debug/demo"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
only = set(os.environ.get("ONLY", "").split()) 
for spec in sys.argv[1:]:
    for b in runpy.run_path(spec)["BUGS"]:
        if only and b["id"] not in only: continue
        d = V / "seeded" / b["id"]; d.mkdir(exist_ok=True)
        env = "\n".join(f'export {k}="{v}"' for k, v in b.get("env", {}).items())
        (d / "demo.sh").write_text(b["demo_sh"] if "demo_sh" in b else DEMO % env)
        if "demo" in b: (d / "demo.rs").write_text(b["demo"])
        for n, t in b.get("files", {}).items(): (d / n).write_text(t)
        (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        out = [b["id"], b["property"]]
        try:
            if os.environ.get("SKIP_CLEAN") != "1":
                t = time.time(); r = sh(f"bash {d}/demo.sh", cwd=R)
                out.append(f"demo-clean={r.returncode} ({time.time()-t:.0f}s)")
                if r.returncode: print(r.stdout[-1500:])
            for f, old, new in b["edits"]:
                p = R / f; s = p.read_text()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                p.write_text(s.replace(old, new))
            (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
            r = sh("bash /opt/vp/test.sh /tmp/plant.json"); out.append("tests: " + r.stdout.strip().splitlines()[-1])
            r = sh(f"bash {d}/demo.sh", cwd=R); out.append(f"demo-bug={r.returncode}")
            print("   ", r.stdout.strip()[-300:])
            t = time.time(); r = sh(f"bash tools/check.sh {b['property']}", cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"check={r.returncode} ({time.time()-t:.0f}s) {v[:1]}")
            if r.returncode != 1: print(r.stdout[-1500:])
            else: print("   ", "\n    ".join(l[:250] for l in r.stdout.splitlines() if ": " in l and "VIOLATED" in l))
        finally:
            sh("git -C /repo checkout -- .")
        print(" | ".join(out), flush=True)
