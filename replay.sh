#!/bin/bash
# replay.sh FILE: re-executes a recorded violation.
cd /verif || exit 2
. ./env.sh
f=$(readlink -f "$1")
if grep -q '"kind": "cli"' "$f"; then crate=simcli bin=twcli; else crate=sim bin=twsim; fi
for p in spl-token-wrap simcli twsim; do rm -rf /verif/target/release/.fingerprint/$p-*; done
(cd $crate && cargo build --offline --release) > /verif/target/build-$bin.log 2>&1 || { tail -40 /verif/target/build-$bin.log; exit 2; }
if grep -q '"js": true' "$f"; then js/build.sh /verif/target/client.js || exit 2; fi
if grep -q '"property": "C2[45]"' "$f"; then sbf/build.sh /verif/target/spl_token_wrap.so || exit 2; fi
exec /verif/target/release/$bin replay "$f"
