#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Rebuilds the simulator from /repo's working tree and searches for a violation of PROPERTY.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (build or harness error).
set -eu
cd "$(dirname "$0")"
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
race=
case $prop in C06 | C12 | C15) race=race ;; esac
case $tier in
  quick) count=20000 racecount=1200 wall=300 ;;
  *) tier=thorough count=200000 racecount=12000 wall=660 ;;
esac
out=$PWD/.build/$prop
mkdir -p "$out" evidence .build/replays
t0=$(date +%s.%N)
(
  flock 9
  ./build.sh "$out" $race >"$out/build.log" 2>&1
) 9>"$out/lock" || { echo "check.sh: the simulator does not build from this tree" >&2; tail -40 "$out/build.log" >&2; exit 2; }
t1=$(date +%s.%N)
build=$(awk "BEGIN{print $t1-$t0}")
args=(-prop "$prop" -tier "$tier" -base "$seed" -count "$count" -wall "$wall" -build "$build" -level exploration
  -evidence "evidence/$prop.json" -replays ".build/replays" -known known_findings.json)
if [ -n "$race" ]; then args+=(-race "$out/bin/simd-race" -racecount "$racecount"); fi
exec "$out/bin/simd" drive "${args[@]}"
