#!/bin/bash
# builds demo.cpp (beside this script) against the library built from the current tree and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
g++ -w -fno-access-control -DLINUX -D__USE_LONG_INTEGERS__ -D__USE_LONG_FINTS__ -DSOLVER_NONE -D__NO_COPYRIGHT__ -I . -I include -I interfaces/c "$D/demo.cpp" _build/qpOASES/libs/libqpOASES.a -o "$T/demo" || { rm -r "$T"; exit 3; }
( cd "$T" && timeout 120 ./demo ); rc=$?
rm -r "$T"
exit $rc
