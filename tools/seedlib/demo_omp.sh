#!/bin/bash
# run with cwd = the repository after its build: exit 0 when the behaviour is right (sources compiled with OpenMP)
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
S=$(ls "$R"/src/*.cpp "$R"/src/hdagg/*.cpp "$R"/utils/*.cpp "$R"/utils/external/*.cpp | grep -v SuperNodalTools)
for f in $S "$D/demo.cpp"; do echo "$f"; done | xargs -P 8 -I{} sh -c 'g++ -std=gnu++11 -O1 -w -fopenmp -DENABLE_OPENMP -DOPENMP -DMETIS -DNDEBUG -I"'"$R"'/include" -I"'"$R"'/include/aggregation" -c "{}" -o "'"$T"'/$(echo {} | tr / _).o" || exit 255' || exit 3
g++ -fopenmp "$T"/*.o "$R/lib/libsym_amd.so" -lmetis -Wl,-rpath,"$R/lib" -o "$T/demo" || exit 3
cd "$T" && OMP_NUM_THREADS=8 OMP_DYNAMIC=false timeout 200 "$T/demo" > "$T/out" 2> "$T/err"
rc=$?
grep -a "DEMO" "$T/out" | head -5
echo "demo exit $rc"
exit $rc
