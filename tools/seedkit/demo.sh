#!/bin/bash
# Builds the demonstration against the repository in the current directory and runs it.
# The third-party QP solver is not installed: solver/ holds a small stand-in for it.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
X='__attribute__((visibility("default")))'
F=(-std=c++14 -O1 -w -DMPC_WALKGEN_API_H "-DMPC_WALKGEN_API=$X" -DMPC_WALKGEN_QPSOLVER_API_H "-DMPC_WALKGEN_QPSOLVER_API=$X"
   -I "$HERE/solver/stub" -I "$HERE/solver" -I "$REPO" -I "$REPO/qpsolver" -isystem /usr/include/eigen3 ${DEMO_FLAGS:-})
cc() { g++ "${F[@]}" "$@"; }
export -f cc 2>/dev/null || true
P=()
cc -c "$HERE/demo.cpp" -o "$W/demo.o" & P+=($!)
cc -c "$HERE/solver/gi.cpp" -o "$W/gi.o" & P+=($!)
cc -c "$REPO/src/qpsolverfactory.cpp" -o "$W/fac.o" & P+=($!)
cc -c "$REPO/qpsolver/src/qpsolver_qpoases_double.cpp" -o "$W/qd.o" & P+=($!)
cc -DQPOASES_REAL_IS_FLOAT -c "$REPO/qpsolver/src/qpsolver_qpoases_float.cpp" -o "$W/qf.o" & P+=($!)
i=0
for s in ${DEMO_SOURCES:-}; do i=$((i+1)); cc -c "$REPO/$s" -o "$W/s$i.o" & P+=($!); done
for p in "${P[@]}"; do wait "$p"; done
# the objects come first: they take precedence over the same ones of the library
g++ "$W"/*.o "$REPO/_build/libmpc-walkgen.a" ${DEMO_FLAGS:-} -o "$W/demo"
"$W/demo"
