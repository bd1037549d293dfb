#!/bin/bash
# run with cwd = the repository after its build: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -O1 -w -DMETIS -DNDEBUG -I"$R/include" -I"$R/include/aggregation" -I"$R/example/sptrsv_src/include" "$D/demo.cpp" \
  -Wl,--start-group "$R/lib/liblbc.a" "$R/lib/libaggregation.a" -Wl,--end-group "$R/lib/libsym_amd.so" -lmetis -Wl,-rpath,"$R/lib" -o "$T/demo" || exit 3
cd "$T" && timeout 200 "$T/demo" > "$T/out" 2> "$T/err"
rc=$?
grep -a "DEMO" "$T/out" | head -5
echo "demo exit $rc"
exit $rc
