#!/bin/bash
# mut1.sh FILE SED-EXPR PROP SECS [SEED]: one hand-made change, one check, in the scratch copy of try.py
H=/tmp/hk
mkdir -p $H; test -d $H/repo || cp -a /repo $H/repo
mkdir -p $H/harness; cp -a /verif/harness/src /verif/harness/Cargo.* $H/harness/; cp /verif/known_findings.txt $H/
sed -i "s#\"/repo/#\"$H/repo/#" $H/harness/Cargo.toml
cd $H/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
sed -i "$2" $1; git diff --stat | head -3; git diff -U0 | tail -n +5
cd $H/harness && CARGO_NET_OFFLINE=true cargo build --offline --quiet 2>&1 | grep -A6 ^error
cd $H; mkdir -p out work; RTMON_SECS=$4 harness/target/debug/rtmon check --property $3 --tier quick --seed ${5:-1} --out out --work work 2>/dev/null | head -12 | cut -c1-400
cd $H/repo && git checkout -q -- .
