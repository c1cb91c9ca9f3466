#!/bin/sh
# build.sh OUT: compile the symbolic executor against rustc's own libLLVM and the system z3
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=$1
LIB=$(rustc --print sysroot)/lib
SO=$(basename $(ls $LIB/libLLVM.so.* | head -1))
g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -c $D/expr.cpp -o $OUT.expr.o &
g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -c $D/symx.cpp -o $OUT.symx.o &
wait
g++ $OUT.expr.o $OUT.symx.o -o $OUT.tmp -L$LIB -l:$SO -Wl,-rpath,$LIB -lz3
rm -f $OUT.expr.o $OUT.symx.o
mv $OUT.tmp $OUT
