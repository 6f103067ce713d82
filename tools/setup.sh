#!/bin/bash
# builds the simulator once (checks build it again from /repo's current tree)
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
"$here/build.sh" "$d"
