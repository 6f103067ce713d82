#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's working
# tree and searches for a violation of the property.
# exit 0: none found; 1: VIOLATION line printed; 2: the check itself failed
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
d=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 2
trap 'rm -rf "$d"' EXIT
if ! "$here/tools/build.sh" "$d" >"$d/log" 2>&1; then
	cat "$d/log" >&2
	echo "error: the simulator does not build against /repo" >&2
	exit 2
fi
"$d/vsim" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -root "$here"
