#!/bin/bash
# mutm.sh FILE SED-EXPR [SECS]: one hand-made change against the P26 monitor, in a scratch copy
H=/tmp/hm
mkdir -p $H/harness; test -d $H/repo || cp -a /repo $H/repo
mkdir -p $H/mathmon; cp -a /verif/harness/src $H/harness/; cp -a /verif/mathmon/src /verif/mathmon/Cargo.* $H/mathmon/
sed -i "s#\"/repo/#\"$H/repo/#" $H/mathmon/Cargo.toml
cd $H/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
sed -i "$2" $1; git diff --stat | head -3; git diff -U0 | tail -n +5 | grep "^[+-]"
cd $H/mathmon && CARGO_NET_OFFLINE=true cargo build --offline --quiet 2>&1 | grep -A6 ^error
RTMON_SECS=${3:-6} target/debug/mathmon check --out $H/out --work $H/work 2>/dev/null | grep -aE "P26" | cut -c1-300
cd $H/repo && git checkout -q -- .
