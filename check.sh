#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator against /repo's working
# tree and runs the check of one property.
set -u
cd /verif || exit 2
. ./env.sh
case "$1" in
  C16|C17|C18|C19|C20|C21|C23|C25) crate=simcli bin=twcli fp="simcli twsim" ;;
  *) crate=sim bin=twsim fp=twsim ;;
esac
# the program's build for the Solana VM, meanwhile
if [ "$1" = C24 ] || [ "$1" = C25 ]; then sbf/build.sh /verif/target/spl_token_wrap.so > /verif/target/build-sbf.log 2>&1 & sbf=$!; fi
# never trust timestamps: rebuild what comes from /repo and from here
for f in spl-token-wrap $fp; do rm -rf /verif/target/release/.fingerprint/$f-*; done
if ! (cd $crate && cargo build --offline --release) > /verif/target/build-$bin.log 2>&1; then
  tail -40 /verif/target/build-$bin.log
  echo "check.sh: the simulator does not build against /repo"
  exit 2
fi
# the JavaScript client, from its sources
if [ "$1" = C23 ] && ! js/build.sh /verif/target/client.js; then
  echo "check.sh: the JavaScript client does not bundle"
  exit 2
fi
if [ -n "${sbf:-}" ] && ! wait $sbf; then
  cat /verif/target/build-sbf.log
  echo "check.sh: the program does not build for the Solana VM"
  exit 2
fi
exec /verif/target/release/$bin check "$1" "$2"
