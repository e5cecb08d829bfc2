#!/bin/sh
# Sanity check of the tools the checks need; each check builds its own harness
# from /repo's current working tree.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
command -v g++ >/dev/null
command -v python3 >/dev/null
printf '#include "mc.hpp"\n#include <Eigen/Core>\n#include <fmt/format.h>\nint main(int a,char**b){mc::Main m("SETUP");(void)a;(void)b;return 0;}\n' > build/setup.cpp
g++ -std=c++17 -w -fsyntax-only -Imc -I/usr/include/eigen3 build/setup.cpp
rm -f build/setup.cpp
echo setup ok
