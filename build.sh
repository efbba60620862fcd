#!/bin/bash
# build.sh harness|brack : builds the harness (which links /repo's crates) or /repo's brack binary
# from /repo's current working tree, into /verif/target.
set -u
here=$(cd "$(dirname "$0")" && pwd)
what=$1
target=$here/target/$what
mkdir -p "$target"
exec 9>"$target.lock"
flock 9
# cargo looks at modification times only; a changed file with an old time must not be missed
hash=$( { cd /repo && find Cargo.toml Cargo.lock build.rs VERSION src crates -type f -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum; cd "$here/harness" && find Cargo.toml Cargo.lock src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
if [ "$(cat "$target/sources" 2>/dev/null)" != "$hash" ]; then
    rm -f "$target/sources"
    rm -rf "$target"/debug/.fingerprint/brack* "$target"/debug/incremental/brack*
fi
export CARGO_TARGET_DIR=$target CARGO_TERM_COLOR=never
if [ "$what" = harness ]; then
    (cd "$here/harness" && cargo build --offline -q) >"$target/log" 2>&1
else
    (cd "$here/harness" && cargo build --offline -q --locked --manifest-path /repo/Cargo.toml --bin brack \
        --config 'profile.dev.package."*".opt-level=2' --config 'profile.dev.package."*".debug=false' \
        --config 'profile.dev.debug="line-tables-only"') >"$target/log" 2>&1
fi
code=$?
if [ $code != 0 ]; then
    grep -A12 -E '^error' "$target/log" | head -60 >&2
    echo "build of $what failed" >&2
    exit 2
fi
echo "$hash" > "$target/sources"
if [ "$what" = brack ]; then
    gcc -O1 -w -shared -fPIC -o "$here/target/shim.so.$$" "$here/shim/shim.c" -ldl -lpthread && mv "$here/target/shim.so.$$" "$here/target/shim.so" || { echo "build of the shim failed" >&2; exit 2; }
fi
