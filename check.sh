#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator with /repo's working tree, search, judge.
# Environment: VERIF_SEED (default 1), VERIF_SECS (seconds of search).
V="$(dirname "$(readlink -f "$0")")"
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
if [ "$T" = thorough ]; then S=${VERIF_SECS:-3000}; else S=${VERIF_SECS:-25}; fi
LOG=$(mktemp /tmp/dst-build.XXXXXX)
if ! "$V/build.sh" >"$LOG" 2>&1; then cat "$LOG" >&2; rm -f "$LOG"; echo "check.sh: build failed" >&2; exit 2; fi
rm -f "$LOG"
mkdir -p "$V/evidence/replays"
exec "$V/target/debug/dst" run --prop "$P" --tier "$T" --seed "${VERIF_SEED:-1}" --secs "$S" --minimise 40 \
  --known "$V/known_findings.txt" --replays "$V/evidence/replays" --evidence "$V/evidence/$P.json"
