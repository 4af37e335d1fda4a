#!/bin/bash
# Builds the harness, with the crate in /repo's working tree, under the sanitizers and in Miri
# (in parallel, after build.sh), and prints what C23's workers run: name=program;...
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export RUSTUP_TOOLCHAIN=nightly
host=x86_64-unknown-linux-gnu
sum=$(cat "$here/target/repo.sum")
build() { # name, arguments of cargo
    local name=$1 dir=$here/target/$1
    shift
    mkdir -p "$dir"
    cd "$here/harness" || return 1
    if [ "$(cat "$dir/repo.sum" 2>/dev/null)" != "$sum" ]; then
        cargo clean --offline --locked -p osu-file-parser --target $host --target-dir "$dir" >/dev/null 2>&1
        cargo clean --release --offline --locked -p osu-file-parser --target $host --target-dir "$dir" >/dev/null 2>&1
        echo "$sum" >"$dir/repo.sum"
    fi
    cargo "${@:1}" >"$dir/log" 2>&1 && return
    tail -n 40 "$dir/log" >&2
    echo "the harness can't be built for $name" >&2
    return 1
}
to() { echo --offline --locked --target $host --target-dir "$here/target/$1"; }
RUSTFLAGS="-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer" build asan build --release $(to asan) &
a=$!
RUSTFLAGS="-Zsanitizer=thread" build tsan build --release -Zbuild-std $(to tsan) &
t=$!
export MIRIFLAGS=-Zmiri-disable-isolation
build miri miri run $(to miri) -- list &
m=$!
wait $a && wait $t && wait $m || exit 1
miri=$here/target/miri/run
cat >"$miri" <<X
#!/bin/bash
cd "$here/harness" && RUSTUP_TOOLCHAIN=nightly MIRIFLAGS="$MIRIFLAGS" exec cargo miri run -q $(to miri) -- "\$@"
X
chmod +x "$miri"
out=native=$here/target/release/harness
for i in 1 2; do
    out="$out;asan=$here/target/asan/$host/release/harness;tsan=$here/target/tsan/$host/release/harness"
done
for i in 1 2 3 4 5 6; do
    out="$out;miri=$miri"
done
echo "$out"
