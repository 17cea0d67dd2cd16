#!/bin/bash
# run in /repo
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
I=incremental_calibration
g++ -std=c++14 -O1 -w -I$I/include -Iaslam_tsvd_solver/include -I/usr/include/eigen3 -I"$D/stubs" -I"$D" "$D/demo.cpp" $I/src/core/OptimizationProblem.cpp $I/src/core/IncrementalOptimizationProblem.cpp $I/src/exceptions/*.cpp -o "$W/demo" || exit 3
timeout 60 "$W/demo"
