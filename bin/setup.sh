#!/bin/bash
# Stage the slice workspace from /repo and build every harness (checks rebuild what changed).
cd /verif && python3 bin/stage.py || exit 1
. bin/env.sh
cd /verif/.work/ws
for h in /verif/harness/*/Cargo.toml; do
  p=$(basename $(dirname $h))
  cargo build --offline -q -p $p || { echo "setup: $p failed to build" >&2; rc=1; }
done
exit ${rc:-0}
