#!/bin/bash
# run_check.sh PROPERTY TIER : build the monitor from /repo's working tree, then run one check
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/harness/target"
mkdir -p work evidence
if [ "$1" = P26 ]; then
    if ! (cd mathmon && cargo build --offline --quiet) >work/build_P26.log 2>&1; then
        tail -n 40 work/build_P26.log >&2
        echo "the arithmetic monitor does not build against /repo" >&2
        exit 2
    fi
    exec harness/target/debug/mathmon check --tier "${2:-quick}" --seed "${VERIF_SEED:-1}" --out evidence --work work
fi
if ! (cd harness && cargo build --offline --quiet) >work/build_$1.log 2>&1; then
    tail -n 40 "work/build_$1.log" >&2
    echo "the harness does not build against /repo" >&2
    exit 2
fi
exec harness/target/debug/rtmon check --property "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}" --out evidence --work work
