#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's current tree, runs the check.
# exit 0: held; 1: VIOLATION line printed; 3: the check could not decide.
P=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 3
trap 'rm -rf "$D"' EXIT
if ! bash "$HERE/bin/build.sh" "$D" >"$D/build.log" 2>&1; then
  echo "ERROR: build failed"; tail -40 "$D/build.log"; exit 3
fi
mkdir -p "$HERE/evidence" "$HERE/replays"
"$D/vsim" check -prop "$P" -tier "$TIER" -seed "${VERIF_SEED:-1}" -evidence "$HERE/evidence/$P.json" \
  -replays "$HERE/replays" -known "$HERE/known_findings.txt" -info "$(cat "$D/info")"
exit $?
