#!/bin/bash
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/harness/target"
for d in harness mathmon; do
    (cd $d && cargo build --offline --quiet) >/tmp/setup_$d.log 2>&1 || { tail -n 30 /tmp/setup_$d.log; test $d = mathmon || exit 1; }
done
exit 0
