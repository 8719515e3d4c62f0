#!/bin/bash
# builds the symbolic executor into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p ../build
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LC=llvm-config-18
command -v $LC >/dev/null || LC=/usr/lib/llvm-18/bin/llvm-config
CXX=clang++; command -v clang++ >/dev/null || CXX=clang++-18
$CXX -O2 -std=c++17 -fexceptions -w $($LC --cppflags) -I$Z3/include symex.cpp -o ../build/symex.tmp $($LC --ldflags) -lLLVM-18 -L$Z3/lib -l:$(cd $Z3/lib; ls libz3.so* | head -1) -Wl,-rpath,$Z3/lib -Wl,-rpath,$($LC --libdir)
mv ../build/symex.tmp ../build/symex
