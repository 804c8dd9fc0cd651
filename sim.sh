#!/bin/bash
# sim.sh check|replay|show|digest ...: runs the build of the simulator the property is decided with.
here=$(cd "$(dirname "$0")" && pwd)
k=blocks
case "$2" in
C06*) k=memory ;;
*) [ "$1" = replay ] && grep -q '^property C06' "$2" && k=memory ;;
esac
exec "$here/sim/target/$k/release/sim" "$@"
