#!/bin/sh
# Instrument the code under test (not the simulator, not build scripts) with a
# callback per basic block: the simulator preempts threads there.
rustc="$1"
shift
name=
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
if [ "$name" = dst ]; then set -- "$@" -Crelocation-model=static; fi
case "$name" in
  bonsaidb_macros) ;;
  bonsaidb_*|nebari|flume|circulate|watchable|easy_parallel|async_lock|scen)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
