#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds from /repo's working tree and runs one check
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 2
cd "$here" || exit 2
exec "$here/build/sim/release/sim" check "$1" "${2:-quick}"
