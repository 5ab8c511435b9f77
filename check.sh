#!/bin/bash
# check.sh <property>: builds the simulator from /repo's working tree and runs one check
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
./build.sh || exit 2
exec harness/target/release/gcsim check "$1"
