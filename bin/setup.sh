#!/bin/bash
# Builds the simulator once, to see that it builds here.
D=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 1
trap 'rm -rf "$D"' EXIT
bash "$(dirname "$0")/build.sh" "$D" && "$D/vsim" list
