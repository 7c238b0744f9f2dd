#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
R=$(pwd)
g++ -std=c++11 -O0 -g -I$R/parameter/include -I$R/parameter/log/include -I$R/utility -I$R/_build/install/include/parameter/client "$D/demo.cpp" -o $T/demo -L$R/_build/lib -lparameter -Wl,-rpath,$R/_build/lib || exit 3
timeout 100 $T/demo
rc=$?
rm -f $T/demo; rmdir $T
exit $rc
