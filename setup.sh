#!/bin/bash
# Builds the simulator and the simulated program once; every check does so again for what changed.
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$HERE/build" "$HERE/evidence" "$HERE/replays"
exec "$HERE/sim/build.sh" "$HERE/build"
