#!/bin/bash
# Compiles the engine's own crates so that the simulator learns which basic blocks are entered
# (SIM_SANCOV says how). Everything else is compiled as it is.
rustc=$1
shift
case " $* " in
*" --crate-name thermal_parser "* | *" --crate-name thermal_renderer "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 $SIM_SANCOV
    ;;
esac
exec "$rustc" "$@"
