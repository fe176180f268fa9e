#!/bin/bash
# check.sh ID [quick|thorough] [--only LABEL]: mirror /repo's working tree, build the harness
# against it, run one property's check. Exit 0 held, 1 violated, anything else: no answer.
set -u
cd "$(dirname "$(readlink -f "$0")")"
ID=${1:?property id}
TIER=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
. tools/env.sh
export NO_PROXY='*' no_proxy='*'
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY all_proxy
mkdir -p build evidence/replay
exec 9>build/.lock
flock 9
if [ "$ID" = C23 ]; then
  CRATE=harness-jwe BIN=vp-harness-jwe
  python3 tools/mirror.py build/mirror-jwe --jwe >&2 || exit 5
else
  CRATE=harness BIN=vp-harness
  python3 tools/mirror.py build/mirror >&2 || exit 5
fi
rm -f "evidence/$ID.json"
OUT=$CARGO_TARGET_DIR
# If it does not build, perhaps the shims lack something of tokio's or std's locks: build without.
if ! (cd $CRATE && cargo build --offline --locked -q) 2>build/build-$ID.log &&
  ! { OUT=$CARGO_TARGET_DIR-plain; (cd $CRATE && CARGO_TARGET_DIR=$OUT RUSTFLAGS='--cfg vp_plain' cargo build --offline --locked -q) 2>/dev/null; }; then
  grep -E '^error' -A 12 build/build-$ID.log >&2
  echo "$ID: the harness does not build against /repo's tree" >&2
  exit 5
fi
# The binary may be replaced by another check's build: run a copy of it.
cp $OUT/debug/$BIN build/run-$ID
flock -u 9
exec 9>&-
build/run-$ID "$ID" --tier "$TIER" --evidence "evidence/$ID.json" --replay-dir evidence/replay --known known_findings.txt "$@"
