#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
# Rebuilds from /repo's working tree and explores the property. 0: held; 1: VIOLATION printed; other: no answer.
set -u
here="$(dirname "${BASH_SOURCE[0]}")"
. "$here/env.sh"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}" VERIF_OUT="$VERIF" VERIF_KNOWN="$VERIF/KNOWN_FINDINGS.json"
bash "$here/setup.sh" || exit 2
rm -f "$VERIF/evidence/$1.json"
cd "$VERIF" || exit 2
harness="$CARGO_TARGET_DIR/debug/verif-harness"
"$here/run.sh" "$harness" run "$1"
rc=$?
[ $rc -lt 128 ] && exit $rc

# The process died (out of memory, stack overflow, abort): find the case that does it.
echo "the harness ended with status $rc; running again to find the case" >&2
trace="$VERIF/.work/trace/$1"
rm -rf "$VERIF/.work/trace/$1"
mkdir -p "$trace" "$VERIF/.work/replays"
VERIF_TRACE="$trace" "$here/run.sh" "$harness" run "$1" >&2
for f in "$trace"/*.json; do
    timeout 120 "$here/run.sh" "$harness" replay "$f" >&2
    r=$?
    if [ $r -eq 1 ] || { [ $r -ge 128 ] && [ $r -ne 137 ]; }; then
        mv "$f" "$VERIF/.work/replays/$1-died.json"
        echo "the process dies (status $r)"
        echo "VIOLATION property=$1 replay=$VERIF/.work/replays/$1-died.json"
        exit 1
    fi
done
exit $rc
