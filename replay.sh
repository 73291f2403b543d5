#!/bin/sh
# replay.sh FILE: re-execute a stored violation in a fresh process.
D=$(cd "$(dirname "$0")" && pwd)
VSIM_ROOT=$D; export VSIM_ROOT
sh "$D/setup.sh" || exit 2
exec "$D/sim/target/release/vsim" replay "$1"
