#!/bin/bash
# dev helper: run N runs of a property on 8 workers and summarise
P=$1; N=${2:-400}; shift 2; BIN=${BIN:-build/sim}; W=${W:-/tmp/w}
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=8192:detect_stack_use_after_return=0 UBSAN_OPTIONS=print_stacktrace=1 LC_ALL=C
for i in 0 1 2 3 4 5 6 7; do $BIN --prop $P --seed ${SEED:-1} --start $i --stride 8 --count $N --tmax ${TMAX:-60000} --all "$@" > $W/out.$i 2>&1 & done; wait
cat $W/out.* | grep -a ^SEEN | awk -F'\t' '{a[$2]+=$3} END{for(k in a) print a[k], k}' | sort -rn
cat $W/out.* | grep -a ^VIOL | sort -t$'\t' -k4,5 | awk -F'\t' '{k=$4$5; if(c[k]++<'${SHOW:-2}') print $2, $4, $5, substr($6,1,300)}'
cat $W/out.* | grep -aE '^(RUNS|EXEC|WALLMS)' | awk '{a[$1]+=$2} END{for(k in a) print k,a[k]}'
cat $W/out.* | grep -aE '^COUNT.(max|out|pfault|input|after)' | awk -F'\t' '{ if ($2 ~ /^max/) { if ($3>a[$2]) a[$2]=$3 } else a[$2]+=$3 } END{for(k in a) printf "%s=%s ", k,a[k]; print ""}'
