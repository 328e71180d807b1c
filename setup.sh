#!/bin/bash
# Fills the build cache, so that the first check does not pay for building the standard
# library (with and without the race detector). Nothing else needs preparing.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
for p in C09 C07 C01 C13 C05 C24 C27; do
  VERIF_BUILD_ONLY=1 ./run.sh $p || exit 1
done
