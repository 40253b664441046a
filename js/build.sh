#!/bin/bash
# build.sh OUT [REPO]: bundles the JavaScript client of /repo with the simulated user's program.
d=$(dirname "$(readlink -f "$0")")
e=/opt/veriftools/node/node_modules/esbuild/bin/esbuild
exec $e "$d/app.js" --bundle --platform=node --log-level=error --tsconfig-raw='{}' --outfile="$1" \
  --define:process.env.NODE_ENV='"development"' \
  --alias:CLIENT="${2:-/repo}/clients/js/src/index.ts" \
  --alias:@solana/kit="$d/kit.js" --alias:@solana/program-client-core="$d/core.js" \
  --alias:@solana-program/system="$d/system.js" --alias:@solana-program/token="$d/token.js" \
  --alias:@solana-program/token-2022="$d/token2022.js"
