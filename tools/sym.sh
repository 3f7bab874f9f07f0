#!/bin/bash
# sym.sh MINFILE: symbolised stack of a crashing scenario
X=${2:-/verif/build/asan/main}; $X replay $1 -v 2>&1 | grep -o 'main+0x[0-9a-f]*' | sed 's/main+//' | head -12 | xargs addr2line -fe $X | paste - - | sed 's/\t/  /;s#/repo/##'
