#!/bin/bash
# Builds demo.cpp with the storage engine of the repository (cwd) on a simulated disk and runs it.
# exit 0: property holds, 1: violated
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
tar xzf "$D/simvnx.tgz" -C "$W" || exit 2
INC="-I $W/simvnx/include -I $R/include -I $R/generated/include -I $R/generated/vm/include -I $R/generated/contract/include -I $R/generated/operation/include -I $R/generated/solution/include"
for f in "$W"/simvnx/src/*.cpp "$D/demo.cpp" "$R"/src/DataBase.cpp; do
	g++ -std=c++17 -O0 -w -msse4.2 $INC -c "$f" -o "$W/$(basename "$f" .cpp).o" || touch "$W/failed" &
done
wait
[ -e "$W/failed" ] && exit 2
g++ -o "$W/demo" "$W"/*.o -lz || exit 2
cd "$W" && ./demo --prop DEMO --time 6 --replay-dir "$W"
