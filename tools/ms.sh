#!/bin/bash
# Developer convenience: run a property under several seeds. ms.sh ID SCALE SEED...
. /verif/tools/env.sh
id=$1; scale=$2; shift 2
for s in "$@"; do VERIF_SEED=$s VERIF_SCALE=$scale /verif/tools/run.sh $CARGO_TARGET_DIR/debug/verif-harness run $id 2>&1 | tail -3; done
