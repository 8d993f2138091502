#!/bin/bash
# Decides one property on /repo's working tree. usage: check.sh PROPERTY [quick|thorough]
# Exit 0: held on everything explored; 1: "VIOLATION property=<id> replay=<path>"; anything else: the check failed.
export LC_ALL=C.UTF-8
HERE=$(cd "$(dirname "$0")" && pwd)
P=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
OUT=$HERE/build
mkdir -p "$OUT" "$HERE/evidence" "$HERE/replays"
exec 9> "$OUT/lock"
flock 9
if ! "$HERE/sim/build.sh" "$OUT" > "$OUT/log.$P" 2>&1; then
    tail -40 "$OUT/log.$P"
    echo "ERROR: the simulated program does not build"
    exit 3
fi
exec 9>&-
LIMIT=420
[ "$TIER" = thorough ] && LIMIT=720
"$OUT/simhost" check --exe="$OUT/simgroot" --property="$P" --tier="$TIER" --seed="$SEED" --limit=$LIMIT \
    --evidence="$HERE/evidence/$P.json" --replays="$HERE/replays" --known="$HERE/known-findings"
rc=$?
# The known finding of C05 is not in this repository's code, so it is left out of the simulated program (see sim/build.sh).
if [ "$P" = C05 ] && [ -e "$OUT/queue-patched" ]; then
    sed -n 's/^known: property=C05 id=queue-release-increment /KNOWN-FINDING: property=C05 /p' "$HERE/known-findings"
fi
exit $rc
