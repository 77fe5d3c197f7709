# q.sh SEED: all quick checks, on a copy of the simulator built last
d=/tmp/q$1; mkdir -p $d/evidence; cp sim/target/release/sieve-sim known-findings.txt $d/
for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21; do s=$(date +%s); VERIF_SEED=$1 VERIF_TIER=quick $d/sieve-sim check C$i quick $d >$d/C$i.out 2>&1; echo C$i rc=$? $(( $(date +%s)-s ))s $(grep -c KNOWN $d/C$i.out) $(grep VIOL $d/C$i.out); done
