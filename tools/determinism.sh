#!/bin/bash
# tools/determinism.sh [RUNS]: the digest over all histories of each property must not depend on the number of
# worker threads or on the process. Prints one line per property; exit 1 on a difference.
cd "$(dirname "$0")/.." || exit 2
./check.sh build || exit 2
n=${1:-5000}; rc=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C19; do
  a=$(sim/target/release/irsim digest --prop $p --seed 5 --runs $n --threads 1)
  b=$(sim/target/release/irsim digest --prop $p --seed 5 --runs $n --threads 3)
  c=$(sim/target/release/irsim digest --prop $p --seed 5 --runs $n --threads 8)
  if [ "$a" = "$b" ] && [ "$b" = "$c" ]; then echo "$p same $a"; else echo "$p DIFFERS $a $b $c"; rc=1; fi
done
exit $rc
