#!/bin/bash
# check.sh <property> [thorough]: rebuilds the harness of one property from /repo's working tree and runs it.
# Exit 0: held on everything explored.  Exit 1: VIOLATION (or a crash of the process that runs the code).
# Exit 3: the check itself failed.
id=$1
[ "$2" = thorough ] && export VERIF_TIER=thorough
. "$(dirname "$0")/env.sh"
cd "$VERIF_ROOT" || exit 3
line=$(grep -E "^$id " tools/harnesses.txt) || { echo "no harness for $id" >&2; exit 3; }
read -r _ pkg bin <<<"$line"
python3 tools/gen.py || exit 3
log=$(mktemp)
if ! (cd "mc" && cargo build --offline -p "$pkg" --bin "$bin") >"$log" 2>&1; then
    tail -60 "$log" >&2; /bin/rm -f "$log"; echo "CHECK ERROR: the harness does not build" >&2; exit 3
fi
/bin/rm -f "$log"
mkdir -p evidence
log=$(mktemp)
"$CARGO_TARGET_DIR/debug/$bin" "$id" 2>&1 | tee "$log"
rc=${PIPESTATUS[0]}
case $rc in
101|132|134|135|136|139)
    # A panic where nothing may panic, an abort or a fault: on the unchanged tree there is none.
    mkdir -p evidence/replays
    { echo "the process that ran the code under check crashed (exit code $rc); the end of what it said:"; tail -40 "$log"; } >"evidence/replays/$id-crash.txt"
    echo "VIOLATION property=$id replay=$VERIF_ROOT/evidence/replays/$id-crash.txt"
    rc=1 ;;
esac
/bin/rm -f "$log"
exit "$rc"
