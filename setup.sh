#!/bin/bash
# Builds the simulators once; checks rebuild what /repo's working tree changes.
cd /verif || exit 2
. ./env.sh
# (the VM build is made again by its check; this leaves its dependencies)
sbf/build.sh /verif/target/spl_token_wrap.so > /verif/target/build-sbf.log 2>&1 & sbf=$!
(cd sim && cargo build --offline --release) || exit 1
if [ -f simcli/Cargo.toml ]; then (cd simcli && cargo build --offline --release) || exit 1; fi
wait $sbf || { cat /verif/target/build-sbf.log; exit 1; }
