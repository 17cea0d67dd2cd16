#!/bin/bash
# run in /repo
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
I=incremental_calibration
X=incremental_calibration_examples/incremental_calibration_examples
g++ -std=c++14 -O1 -w @FLAGS@ -I"$D/stubs_lrf" -I"$D/stubs_app" -I"$D/stubs_sim" -I"$D/stubs_vision" -I"$D/stubs_camera" -I"$D/stubs_calib" -I"$D/stubs_backend" -I$I/include -I/usr/include/eigen3 -I"$D" "$D/demo.cpp" @SRC@ $I/src/base/Serializable.cpp $I/src/base/Timestamp.cpp $I/src/exceptions/*.cpp -o "$W/demo" || exit 3
timeout 60 "$W/demo"
