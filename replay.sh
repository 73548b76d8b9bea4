#!/bin/bash
# replay.sh FILE: runs one replay file against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 2
exec "$here/build/sim/release/sim" replay "$1"
