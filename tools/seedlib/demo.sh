#!/bin/bash
# exits 0 when the property holds for the scenario in demo.c, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); B=/repo/_build/src
NUM=$(cat "$D/oct" 2>/dev/null || echo MPQ)
case $NUM in D) N=NUM_DOUBLE;; Dl) N=NUM_LONGDOUBLE;; MPFR) N=NUM_MPFR;; MPZ) N=NUM_MPZ;; *) N=NUM_MPQ;; esac
BX=$(cat "$D/box" 2>/dev/null || echo MPQ)
gcc -w -O1 -std=gnu99 -D$N -U__STRICT_ANSI__ -I"$D" -I$B/num -I$B/itv -I$B/apron -I$B/newpolka -I$B/octagons -I$B/box -I$B/ppl "$D/demo.c" -o $T/demo \
  $B/newpolka/libpolkaMPQ.a $B/octagons/liboct$NUM.a $B/box/libbox$BX.a $B/ppl/libap_ppl.a $B/itv/libitvMPQ.a $B/apron/libapron.a $B/itv/libitv$NUM.a $B/itv/libitv$BX.a -lppl -lgmpxx -lstdc++ -lmpfr -lgmp -lm -lpthread || { echo "demo does not build"; rm -rf "$T"; exit 3; }
timeout 100 $T/demo; r=$?
rm -rf "$T"; exit $r
