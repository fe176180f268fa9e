#!/bin/bash
# Builds the harness crates from /repo's tree; the checks do it again for the tree they judge.
set -e
cd "$(dirname "$(readlink -f "$0")")"
. tools/env.sh
mkdir -p build evidence/replay
python3 tools/mirror.py build/mirror
python3 tools/mirror.py build/mirror-jwe --jwe
for c in harness harness-jwe; do
  [ -f $c/Cargo.toml ] && (cd $c && cargo build --offline --locked -q 2>&1 | grep -E '^error' -A 12 || true)
done
exit 0
