#!/bin/bash
# check.sh ID: builds the simulator for property ID from /repo's working tree and runs its check.
# Exit 0: held; 1: violated (VIOLATION line on stdout); anything else: the check itself failed.
# VERIF_SEED and VERIF_TIER (quick, thorough) select the seed and the depth.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=${1:?property id}
. "$V/lib.sh"
case $ID in
  C04|C05|C06) build_load || exit 2; exec "$V/target/debug/loadsim" check "$ID" ;;
  C09) build_macro || exit 2; exec "$V/target/debug/macrosim" check "$ID" ;;
  C01|C02|C03|C07|C08|C10|C11)
    build_code
    case $? in
      0) exec "$V/target/debug/codesim" check "$ID" ;;
      1) exec python3 "$V/sim/nocompile.py" report "$ID" "$V/work/build.log" ;;
      *) exit 2 ;;
    esac ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
