#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 3
if [ "$1" = C19 ]; then
    # two configurations: with and without the library's optional feature
    ./build.sh; on=$?
    ./build.sh plain; off=$?
    if [ $on = 0 ] && [ $off = 0 ]; then exec sim/target/release/treesim check C19; fi
    [ $on = 0 ] && SIM_BUILD_FAILED=feature-off exec sim/target/release/treesim check C19
    [ $off = 0 ] && SIM_BUILD_FAILED=feature-on exec sim/target/plain/treesim check C19
    exit 3
fi
./build.sh || exit 3
if [ "$1" = C15 ]; then
    # stack use: once optimised, once as a debug build has it (no recursion turned into loops)
    ./build.sh deep || exit 3
    sim/target/release/treesim check C15 || exit $?
    SIM_SECOND=1 exec sim/target/deep/treesim check C15
fi
exec sim/target/release/treesim check "$1"
