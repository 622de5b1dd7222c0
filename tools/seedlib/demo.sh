#!/bin/bash
# cwd: /repo, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -DPLATFORM_POSIX=1 -DHSM_LOGGING_MODE_OFF -DHSM_ENABLE_SAFE_STRUCTURE -DHSMBUILD_DEBUGGING -Iinclude -I_build -I"$D" "$D/demo.cpp" \
    -o "$T/demo" _build/libhsmcpp_std.a _build/libhsmcpp.a -lpthread || exit 3
cd "$T" && timeout 60 ./demo
