#!/bin/bash
# replay.sh FILE: runs one replay file again on /repo's working tree; exit 1 and a VIOLATION line if it still fails.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
F=$(realpath "${1:?replay file}")
. "$V/lib.sh"
ID=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$F")
case $ID in
  C04|C05|C06) build_load || exit 2; exec "$V/target/debug/loadsim" replay "$F" ;;
  C09) build_macro || exit 2; exec "$V/target/debug/macrosim" replay "$F" ;;
  C01|C02|C03|C07|C08|C10|C11)
    build_code
    case $? in
      0) exec "$V/target/debug/codesim" replay "$F" ;;
      1) exec python3 "$V/sim/nocompile.py" replay "$ID" "$V/work/build.log" "$F" ;;
      *) exit 2 ;;
    esac ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
