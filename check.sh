#!/bin/sh
# check.sh PROPERTY: build the simulator and run the property's check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
VSIM_ROOT=$(pwd); export VSIM_ROOT
sh ./setup.sh || exit 2
exec ./sim/target/release/vsim check "$1"
