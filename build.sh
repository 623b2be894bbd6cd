#!/bin/bash
# Builds the simulator and the code under test from /repo's working tree.
. "$(dirname "$(readlink -f "$0")")/env.sh"
cd "$(dirname "$(readlink -f "$0")")/sim" && exec cargo build --offline "$@"
