#!/bin/bash
# Builds the instrumenter and the simulator, from /repo's working tree, and tries it out.
set -e
cd "$(dirname "$0")"
./build.sh build/setup
build/setup/sim -prop C04 -runs 64 -dir build/setup/out
rm -rf "$PWD/build/setup"
