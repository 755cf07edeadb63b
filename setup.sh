#!/bin/bash
# Builds the analysers from the committed sources (offline). Used as setup_cmd and by every check when missing or stale.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
mk() { # name, sources that matter
  local h; h=$(cat "${@:2}" | sha256sum | cut -d' ' -f1)
  if [ -x build/$1 ] && [ "$(cat build/$1.hash 2>/dev/null)" = "$h" ]; then return 0; fi
  local t; t=$(mktemp -p build $1.XXXXXX)
  g++ -std=c++17 -O2 -Itool $(llvm-config-18 --cppflags) -fexceptions -fno-rtti tool/$1.cpp -o "$t" $(llvm-config-18 --ldflags --libs)
  mv "$t" build/$1
  echo "$h" > build/$1.hash
}
mk abint tool/*.hpp tool/*.inc tool/abint.cpp & a=$!
mk effects tool/effects.cpp
wait $a
