#!/bin/bash
# Builds the simulator once, which also warms the Go build cache. The checks rebuild from /repo's tree.
set -eu
cd "$(dirname "$0")"
./build.sh "$PWD/.build/setup" race
"$PWD/.build/setup/bin/simd" determinism -prop C06 -n 20
