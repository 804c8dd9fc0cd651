#!/bin/bash
# build.sh [PROPERTY]: builds the simulator against /repo's working tree, offline. Exits 3 if
# that does not build. C06 has a build of its own, in which the engine reports its memory
# accesses to the scheduler. Without a property, both are built.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 3
mkdir -p target
export RUSTC_WRAPPER=$PWD/rustc.sh
exec 9>target/.lock
flock 9
# cargo trusts file times; a copy of a tree can have new contents under old times.
want=$({ cat rustc.sh ../build.sh; cd /repo && find . -path ./.git -prune -o -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.ttf' -o -path '*/resources/*' -o -path '*/templates/*' \) -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
build() {
    export CARGO_TARGET_DIR=$PWD/target/$1
    if [ "$(cat "target/$1.tree" 2>/dev/null)" != "$want" ]; then
        rm -f "target/$1.tree"
        cargo clean --release --offline --quiet -p thermal_parser -p thermal_renderer -p sim >/dev/null 2>&1
    fi
    if ! cargo build --release --offline --quiet >"target/$1.log" 2>&1; then
        grep -E -A5 '^error' "target/$1.log" | cut -c1-300 | head -40 >&2
        echo "the simulator does not build against /repo" >&2
        exit 3
    fi
    echo "$want" >"target/$1.tree"
}
case "${1:-all}" in
C06) kinds=memory ;;
all) kinds="blocks memory" ;;
*) kinds=blocks ;;
esac
for k in $kinds; do
    # a flag per basic block, or a call at every basic block, load and store
    SIM_SANCOV="-Cllvm-args=-sanitizer-coverage-inline-bool-flag"
    [ "$k" = memory ] && SIM_SANCOV="-Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
    export SIM_SANCOV
    build "$k"
done
