#!/bin/bash
# v.sh UNIT [verus options]: extract and verify one unit, for development.
u=$1; shift; b=/tmp/vb; mkdir -p $b
/verif/vx/target/release/vx /verif/contracts/$u.vx ${VERIF_REPO:-/repo} $b/$u.rs $b/$u.json || exit
cd $b && timeout ${VT:-120} verus $u.rs --multiple-errors 6 --triggers-mode silent "$@" 2>&1
