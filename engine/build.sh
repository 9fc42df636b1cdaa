#!/bin/bash
# Builds the abstract interpreter and the effect-fact extractor into /verif/build (skipped when up to date).
set -eu
cd "$(dirname "$0")"
B=../build
mkdir -p $B
exec 9>$B/.lock
flock 9
H=$(cat *.hpp *.cpp build.sh | sha1sum | cut -c1-16)
[ -f $B/absint ] && [ -f $B/facts ] && [ "$(cat $B/absint.hash 2>/dev/null)" = "$H" ] && exit 0
CF="-std=c++17 -O2 -frounding-math -fno-strict-aliasing -w -I. $(llvm-config-18 --cxxflags | sed 's/-std=c++17//;s/-fno-exceptions//') -fexceptions"
LF="$(llvm-config-18 --ldflags --libs --system-libs)"
clang++ $CF facts.cpp -o $B/facts.tmp $LF &
P=$!
clang++ $CF absint.cpp -o $B/absint.tmp $LF
wait $P
mv $B/absint.tmp $B/absint
mv $B/facts.tmp $B/facts
echo "$H" > $B/absint.hash
