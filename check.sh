#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds from /repo's working tree and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" "$1" || exit 3
exec "$here/sim.sh" check "$1" --tier "${2:-quick}" --root "$here"
