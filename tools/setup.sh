#!/bin/bash
# Builds every harness once, offline.
. "$(dirname "$0")/env.sh"
cd "$VERIF_ROOT" || exit 3
python3 tools/gen.py || exit 3
cd mc || exit 3
# one after another: they use ringrtc with different features
for p in mc-mrp mc-ring mc-audio; do
    log=$(cargo build --offline -p "$p" --bins 2>&1) || { tail -5 <<<"$log"; exit 1; }
    tail -1 <<<"$log"
done
