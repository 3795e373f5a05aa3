#!/bin/bash
# one.sh NAME SEED CASE [ARGS]: one case of a driver on its own
cd /verif; n=$1; s=$2; c=$3; shift 3
B=$(./build.sh ${FLAVOR:-asan} $n $(tools/srcs.sh $n) $n.cpp) || { echo "$B" | head -30; exit 2; }
ASAN_OPTIONS=detect_leaks=${LEAKS:-0}:detect_stack_use_after_return=1:handle_abort=1 UBSAN_OPTIONS=print_stacktrace=1 timeout ${TMO:-300} $B --seed $s --case $c "$@" 2>&1
