#!/bin/bash
# compiles demo.rs against the libraries build.sh made of /repo, and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
D=/opt/vp/target/release/deps
lib() { ls -t $D/lib$1-*.rlib $D/lib$1.rlib 2>/dev/null; }
ext=()
for c in fields starky recursion algebraic_gpu algebraic recursion_gnark_ffi; do
  f=$(lib $c | head -1)
  [ -n "$f" ] && ext+=(--extern $c="$f")
done
# of a dependency there may be several builds: the one the libraries use makes it compile
done_=
for sj in $(grep -qs serde_json "$here/demo.rs" && lib serde_json || echo -); do
  for ff in $(grep -qs 'ff::' "$here/demo.rs" && lib ff_ce || echo -); do
    x=()
    [ $sj != - ] && x+=(--extern serde_json=$sj)
    [ $ff != - ] && x+=(--extern ff=$ff)
    if rustc --edition 2021 -O -A warnings "$here/demo.rs" -o "$t/demo" -L dependency=$D "${ext[@]}" "${x[@]}" 2> "$t/err"; then done_=1; break 2; fi
  done
done
if [ -z "$done_" ]; then cat "$t/err"; rm -rf "$t"; exit 3; fi
(cd "$t" && ./demo)
rc=$?
rm -rf "$t"
exit $rc
