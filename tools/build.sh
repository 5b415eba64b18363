#!/bin/bash
# Incremental build of wrenfold (library + Python module) from /repo's working tree into /verif/build/wf.
set -e
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/build/wf
mkdir -p "$V/build"
exec 9>"$V/build/.lock"; flock 9
if [ ! -f "$B/build.ninja" ]; then
  cmake -S /repo -B "$B" -G Ninja -DCMAKE_BUILD_TYPE=None "-DCMAKE_CXX_FLAGS=$WARN -O1 -w" \
    -DCMAKE_PROJECT_wrenfold_INCLUDE=/opt/vp/cmake/offline_deps.cmake \
    -DWF_NANOBIND_CMAKE_DIR=/opt/vp/nanobind-2.12.0/nanobind/cmake \
    -DPython_ROOT_DIR="$VENV" -DPython_EXECUTABLE="$VENV/bin/python" -DPython_FIND_VIRTUALENV=ONLY \
    -DWF_BUILD_TESTS=OFF -DWF_BUILD_EXAMPLES=OFF -DWF_BUILD_BENCHMARKS=OFF -DWF_BUILD_STUBS=OFF \
    -DWF_BUILD_DOCS=OFF -Wno-deprecated > "$V/build/cmake.log" 2>&1 || { tail -50 "$V/build/cmake.log"; exit 2; }
fi
ninja -C "$B" > "$V/build/ninja.log" 2>&1 || { tail -50 "$V/build/ninja.log"; exit 2; }
if [ ! -f "$V/build/java/Num.class" ] || [ "$V/java/Num.java" -nt "$V/build/java/Num.class" ]; then
  mkdir -p "$V/build/java"
  javac -cp /opt/veriftools/tla/tla2tools.jar -d "$V/build/java" "$V/java/Num.java"
fi
