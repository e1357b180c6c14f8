#!/bin/bash
# Usage: replay.sh FILE - runs the minimal case of a VIOLATION line again on the current tree.
set -u
here="$(dirname "${BASH_SOURCE[0]}")"
. "$here/env.sh"
bash "$here/setup.sh" || exit 2
exec "$here/run.sh" "$CARGO_TARGET_DIR/debug/verif-harness" replay "$1"
