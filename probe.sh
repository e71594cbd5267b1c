#!/bin/bash
# Build the feature probe (C27) under every set of features, into target/probe.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$here/target"
d="$here/target/probe"
mkdir -p "$d" && cd "$here/probe" || exit 2
rm -f "$d"/*
for s in none std bigint datetime serialize std+bigint std+datetime std+serialize debug trace std+bigint+datetime+serialize+trace; do
  f="$(echo "$s" | sed 's/^none$//; s/+/ /g')"
  if cargo build --offline --no-default-features --features "$f" >"$d/$s.log" 2>&1 && cp "$here/target/debug/probe" "$d/$s"; then
    rm -f "$d/$s.log"
  else
    # only errors of the compiler in the library (or in its use) count: anything else is no answer
    grep -q -e 'could not compile `asn1-rs' -e 'could not compile `probe' "$d/$s.log" || { cat "$d/$s.log"; echo "BUILD-ERROR: the probe cannot be built"; exit 2; }
    grep -E '^error' -A6 "$d/$s.log" >"$d/$s.failed"
  fi
  echo "$s" >>"$d/sets"
done
[ -x "$d/std" ] || { cat "$d/std.failed"; echo "BUILD-ERROR: the probe does not build with the default features"; exit 2; }
