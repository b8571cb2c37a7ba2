#!/bin/bash
# replay.sh FILE: replays a recorded violation against /repo's current tree (exit 1 and the violation, or 0: gone).
F=$(realpath "${1:?replay file}")
HERE=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 3
trap 'rm -rf "$D"' EXIT
bash "$HERE/bin/build.sh" "$D" >"$D/build.log" 2>&1 || { tail -40 "$D/build.log"; exit 3; }
"$D/vsim" replay "$F"
