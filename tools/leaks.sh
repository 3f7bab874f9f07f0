#!/bin/bash
# leaks.sh SEED [PROFILE]: minimise a leaking history and show where the leaked blocks were allocated
cd /verif; X=${SIM_BUILD:-build}/${V:-asan}/main; $X gen ${2:-C08} $1 > out/t.leak; $X min out/t.leak out/m.leak 40 >/dev/null; ASAN_OPTIONS=detect_leaks=1 ASAN_SYMBOLIZER_PATH=$(which llvm-symbolizer llvm-symbolizer-18 | head -1) ASAN_OPTIONS=detect_leaks=1:symbolize=1 $X leaks out/m.leak 2>&1 | grep -v "^ *#[0-9]* .*\(libc.so\|main.cpp\)" | head -${T:-30}; grep -v "^cfg" out/m.leak | tail -15
