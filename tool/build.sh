#!/bin/bash
# builds the AST extractor (once per source version) into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p ../build
H=$(sha256sum gcx.cc | cut -d' ' -f1)
if [ -x ../build/gcx ] && [ "$(cat ../build/gcx.sha 2>/dev/null)" = "$H" ]; then exit 0; fi
T=$(mktemp ../build/gcx.XXXXXX)
clang++-18 -std=c++17 -O1 $(llvm-config-18 --cppflags) gcx.cc -o "$T" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
chmod +x "$T"
mv -f "$T" ../build/gcx
echo "$H" > ../build/gcx.sha
