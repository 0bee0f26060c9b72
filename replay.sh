#!/bin/bash
# ./replay.sh <file>: runs the minimal failing case of a replay file against /repo's working tree.
# exit 1: it fails again; 0: it does not.
F="$(readlink -f "$1")"
cd "$(dirname "$0")" || exit 2
case "$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["engine"])' "$F")" in
t) exec python3 typecheck/typecheck.py run "$F" ;;
m) BIN=$(./build_m.sh) || exit 2; exec "$BIN" run "$F" ;;
*) echo "unknown engine"; exit 2 ;;
esac
