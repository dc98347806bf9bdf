#!/bin/bash
# Builds the node of the repository (cwd) on the simulator and runs the demonstration in demo.cpp.
# exit 0: property holds, 1: violated
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
tar xzf "$D/simvnx.tgz" -C "$W" || exit 2
cp "$D/demo.cpp" "$W/harness/demo.cpp"
SIM_OPT=-O1 SIM_REPO="$R" SIM_BUILD="$W/build" python3 "$W/tools/build.py" demo || exit 2
cd "$W" && ./build/bin/demo --prop DEMO --jobs 8 --time 25 --replay-dir "$W"
