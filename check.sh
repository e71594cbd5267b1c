#!/bin/bash
# Build the monitors against /repo's current working tree and run one check.
# usage: check.sh <property> | --build | --list | --input <type> <hex>
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$here/target"
cd "$here/harness" || exit 2
log="$here/target/build.log"
mkdir -p "$here/target" "$here/evidence"
if ! cargo build --offline >"$log" 2>&1; then
  grep -E '^error' -A6 "$log" | head -60
  echo "BUILD-ERROR: the monitors do not build against /repo"
  exit 2
fi
[ "$1" = "--build" ] && exit 0
cd "$here" || exit 2
if [ "$1" = C27 ]; then
  "$here/probe.sh" || exit 2
fi
exec "$here/target/debug/mon" "$@"
