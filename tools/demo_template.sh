#!/bin/bash
# Run with cwd /repo after the build: 0 when the property holds, nonzero when it is broken.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++ -std=c++20 -O1 -march=MARCH -Iinclude -isystem /opt/vp/deps/tomlplusplus/include \
    -DSVS_VERSION_MAJOR=0 -DSVS_VERSION_MINOR=0 -DSVS_VERSION_PATCH=4 -DSVS_HAVE_MKL=0 \
    -DSVS_CHECK_BOUNDS=1 -DSVS_ENABLE_NUMA=0 -DSVS_INITIALIZE_LOGGER=1 -DSPDLOG_FMT_EXTERNAL \
    -DSPDLOG_COMPILED_LIB -w "$D/demo.cpp" -o "$W/demo" -lspdlog -lfmt -lpthread || exit 3
cd "$W" && timeout 120 ./demo
