#!/bin/bash
# Developer convenience: workspace, build, run.
. /verif/tools/env.sh
python3 /verif/tools/mkws.py >/dev/null && (cd /verif/harness && cargo build 2>&1 | grep -E "^error|^warning: unused var" -A8 | head -80; exit ${PIPESTATUS[0]}) || exit 2
[ $# -gt 0 ] && exec /verif/tools/run.sh $CARGO_TARGET_DIR/debug/verif-harness "$@"
