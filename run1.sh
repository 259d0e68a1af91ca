#!/bin/bash
# run1.sh HARNESS [llsym args]: one harness on the current build (development aid)
D=$(cd "$(dirname "$0")" && pwd)
LL=$(ls -t $D/target/h/debug/deps/vharness-*.ll | head -1)
H=$1; shift
exec $D/target/e/release/llsym $LL $H --bin $D/target/h/debug/vharness "$@"
