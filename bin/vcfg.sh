#!/bin/bash
# vcfg.sh SRC BUILD VARIANT: configure one build variant of the mirrored tree
set -e
SRC=$1 B=$2 V=$3
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin CC=gcc CXX=g++
unset CONDA_PREFIX
HERE=$(cd "$(dirname "$0")/.." && pwd)
case $V in
  asan) F="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,vptr";;
  tsan) F="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread";;
  plain) F="-O1 -g1";;
esac
cmake -S "$SRC" -B "$B" -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_FLAGS="-w -DNDEBUG_VERIF $F" -DCMAKE_C_FLAGS="-w $F" \
  -DCMAKE_EXE_LINKER_FLAGS="-fuse-ld=lld" -DCMAKE_SHARED_LINKER_FLAGS="-fuse-ld=lld" \
  -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_PREFIX_PATH=/usr/lib/llvm-16 -DCMAKE_MODULE_PATH=$HERE/cmake \
  -DCMAKE_PROJECT_INCLUDE=$HERE/cmake/inject.cmake -DCMAKE_C_COMPILER_LAUNCHER=ccache -DCMAKE_CXX_COMPILER_LAUNCHER=ccache \
  -DVERIF_VARIANT=$V \
  -DENABLE_FOLLY=OFF -DENABLE_SQL=OFF -DENABLE_PYTHON=OFF -DENABLE_BENCHMARKS=OFF -DENABLE_ARMADILLO=ON
