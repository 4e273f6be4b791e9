#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$TIER
if [ "$P" = C24 ]; then
  # side by side
  ./build.sh harness & a=$!
  ./build.sh asan & b=$!
  ./build.sh tsan & c=$!
  ./build.sh miri & d=$!
  for j in $a $b $c $d; do wait $j || exit 2; done
else
  ./build.sh harness srv || exit 2
fi
exec ./target/harness/release/vh "$P" "$TIER"
