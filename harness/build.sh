#!/bin/bash
# build.sh MODE... (asan|omp|tsan|mt|plain): compiles /repo's current sources and the harness into build/<mode>/vh
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
B=${VERIF_BUILD:-$HERE/../build}
mkdir -p "$B"
B=$(cd "$B" && pwd)
python3 "$HERE/mirror.py" "${VERIF_REPO:-/repo}" "$B/mirror/repo"
for MODE in "${@:-asan}"; do
  mkdir -p "$B/$MODE"
  make -s -j"${VERIF_JOBS:-8}" -f "$HERE/Makefile" MODE="$MODE" REPO="$B/mirror/repo" OUT="$B/$MODE" HERE="$HERE" "$B/$MODE/vh"
done
