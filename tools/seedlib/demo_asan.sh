#!/bin/bash
# run with cwd = the repository after its build: exit 0 when the behaviour is right (memory errors stop the program)
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
S=$(ls "$R"/src/*.cpp "$R"/src/hdagg/*.cpp "$R"/utils/*.cpp "$R"/utils/external/*.cpp | grep -v SuperNodalTools)
for f in $S "$D/demo.cpp"; do echo "$f"; done | xargs -P 8 -I{} sh -c 'g++ -std=gnu++11 -O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=alignment,object-size,nonnull-attribute -DMETIS -DNDEBUG -I"'"$R"'/include" -I"'"$R"'/include/aggregation" -c "{}" -o "'"$T"'/$(echo {} | tr / _).o" || exit 255' || exit 3
g++ -fsanitize=address,undefined "$T"/*.o "$R/lib/libsym_amd.so" -lmetis -Wl,-rpath,"$R/lib" -o "$T/demo" || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 200 "$T/demo" > "$T/out" 2> "$T/err"
rc=$?
grep -a "DEMO" "$T/out" | head -5; grep -a "ERROR: Addr\|runtime error" "$T/err" | head -3
echo "demo exit $rc"
exit $rc
