#!/bin/bash
# Replays a violation on /repo's working tree. usage: replay.sh FILE
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$HERE/build"
"$HERE/sim/build.sh" "$HERE/build" > "$HERE/build/log.replay" 2>&1 || { tail -40 "$HERE/build/log.replay"; exit 3; }
exec "$HERE/build/simhost" replay "${1:?}" --exe="$HERE/build/simgroot" --known="$HERE/known-findings"
