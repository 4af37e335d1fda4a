#!/bin/bash
# Builds the harness, and with it the crate in /repo's working tree, into /verif/target.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
# don't rely on the files' times to see a change
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$here/target/repo.sum" 2>/dev/null)" != "$sum" ]; then
    (cd "$here/harness" && cargo clean --release --offline --locked -p osu-file-parser --target-dir "$here/target") >/dev/null 2>&1
    echo "$sum" >"$here/target/repo.sum"
fi
cd "$here/harness" && exec cargo build --release --offline --locked --target-dir "$here/target"
