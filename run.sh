#!/bin/bash
# usage: run.sh <property> [index of a case to run again]
# Builds the harness from /repo's working tree and runs the check of a property. VERIF_TIER and VERIF_SEED are used.
cd /verif || exit 2
what=plain
bin=vh
if [ "$1" = C21 ]; then
  what=race
  bin=vhrace
fi
mkdir -p evidence build
if ! ./build.sh $what > build/log.$1 2>&1; then
  cat build/log.$1
  echo "INCONCLUSIVE property=$1 the build failed"
  exit 2
fi
if [ "$1" = C28 ]; then
  ./build.sh cli > build/log.$1 2>&1 || { cat build/log.$1; echo "INCONCLUSIVE property=$1 the build failed"; exit 2; }
fi
exec build/$bin run "$@"
