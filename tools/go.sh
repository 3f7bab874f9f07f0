#!/bin/bash
# go.sh PROFILE N [libs...]: build and run N seeds on 8 workers; summary by class and first words
cd /verif; P=$1; N=$2; shift 2
python3 tools/build.py ${V:-asan} main.cpp,expr.cpp,dom.cpp,ref.cpp,hist.cpp,step.cpp,special.cpp,checks.cpp,misuse.cpp,level1.cpp,gen.cpp,fpu.cpp,sched.cpp$([ "$V" = cxx ] && echo ,cxx.cpp) "$@" >out/build.log 2>&1 || { tail -30 out/build.log; exit 1; }
S=${S:-1}; for w in 0 1 2 3 4 5 6 7; do ./${SIM_BUILD:-build}/${V:-asan}/main batch $P $((S+w)) $((N/8)) 8 out/$P.$w.txt 600 & done; wait
cat out/$P.?.txt | grep ^R | sort -k2n > out/$P.txt
awk '{print $5}' out/$P.txt | sort | uniq -c | tr '\n' ' '; cat out/$P.?.txt | grep ^T | awk '{s+=$2;if($3>m)m=$3}END{print "steps",s,"sec",m}'
awk '$5==2' out/$P.txt | cut -c1-${C:-170} | awk '{k=$2; $3="";$4="";$5="";$1="";$6=""; print}' | head -${H:-25}
