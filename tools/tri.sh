#!/bin/bash
# tri.sh PROFILE SEED [exe]: minimise the scenario of one seed and show it
cd /verif; X=${3:-${SIM_BUILD:-build}/asan/main}
$X gen $1 $2 > out/t.$1.$2; $X min out/t.$1.$2 out/m.$1.$2 30 >/dev/null; $X replay out/m.$1.$2 -v 2>&1 | cut -c1-600 | tail -${T:-40}
