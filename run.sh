#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
# Builds the harness with the crate in /repo's working tree and runs the property's check.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
. "$here/env.sh"
if ! bash "$here/build.sh" >"$here/target/build-$$.log" 2>&1; then
    cat "$here/target/build-$$.log"
    rm -f "$here/target/build-$$.log"
    echo "the harness can't be built"
    exit 2
fi
rm -f "$here/target/build-$$.log"
if [ "$1" = C23 ]; then
    # several builds of the harness, each under a monitor of its own
    VERIF_BUILDS=$(bash "$here/sanitize.sh") || exit 2
    export VERIF_BUILDS
    export ASAN_OPTIONS=abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1
    export TSAN_OPTIONS=abort_on_error=1:halt_on_error=1
fi
exec "$here/target/release/harness" check "$1"
