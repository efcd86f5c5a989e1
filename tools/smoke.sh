#!/bin/bash
# The simulator must not change what a program does: run sim/smoke/smoke.rs with and without it and compare.
# usage: smoke.sh [number of seeds]
VERIF=$(cd "$(dirname "$0")/.." && pwd)
ART=${SIM_ART:-$VERIF/target}
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export SMOKE=yes
rustc +stable --edition 2021 -Awarnings -o "$d/smoke" "$VERIF/sim/smoke/smoke.rs" || exit 2
# the same with coverage callbacks, which make every basic block a scheduling point
rustc +stable --edition 2021 -Awarnings -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard -L native="$ART/sim" -lsim -o "$d/smoke-cov" "$VERIF/sim/smoke/smoke.rs" || exit 2
mkdir -p "$d/0/w"; ( cd "$d/0/w" && "$d/smoke" </dev/null 2>"$d/0/err" | sed 's/"smoke-cov"/"smoke"/' >"$d/0/out"; echo "exit ${PIPESTATUS[0]}" >>"$d/0/out" )
bad=0
for seed in $(seq 1 ${1:-10}); do
    mkdir -p "$d/$seed/w"
    case $((seed % 3)) in 0) sched="rand 1 $seed" ;; 1) sched="pct 5 20000" ;; 2) sched="rr $((seed * 10))" ;; esac
    exe=smoke; [ $((seed % 2)) = 0 ] && exe=smoke-cov
    printf 'root %s\nseed %s\nheap_seed %s\nheap_fill %s\nheap_reuse %s\npid %s\nsched %s\ngran 63\nmax_ops 100000000\nmax_steps 10000000000\n' \
        "$d/$seed/w" $seed $seed $((seed * 37 % 256)) $((seed % 4)) $((seed + 5)) "$sched" >"$d/plan"
    ( cd "$d/$seed/w" && export SIM_TRACE="$d/trace" SIM_PLAN="$d/plan" LD_PRELOAD="$ART/sim/libsim.so" LD_LIBRARY_PATH="$ART/sim"
      exec -a smoke "$d/$exe" </dev/null >"$d/$seed/out.raw" 2>"$d/$seed/err" ); r=$?
    sed 's/"smoke-cov"/"smoke"/' "$d/$seed/out.raw" >"$d/$seed/out"; echo "exit $r" >>"$d/$seed/out"
    if ! cmp -s "$d/0/out" "$d/$seed/out"; then
        echo "seed $seed ($exe, $sched) differs"; diff "$d/0/out" "$d/$seed/out" | head -20; tail -3 "$d/$seed/err"; bad=1
    fi
done
[ $bad = 0 ] && echo "smoke test: the same with and without the simulator"
exit $bad
