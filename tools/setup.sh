#!/bin/bash
# Builds the harness from the committed files and /repo's working tree.
set -u
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$VERIF/.work"
python3 "$VERIF/tools/mkws.py" || exit 2
cd "$VERIF/harness" && cargo build --offline 2>"$VERIF/.work/build.log" || { tail -60 "$VERIF/.work/build.log" >&2; exit 2; }
