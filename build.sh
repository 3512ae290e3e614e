#!/bin/bash
# Builds the harness (harness/target/release/vh) against /repo's current working tree, offline.
cd "$(dirname "$(realpath "$0")")/harness" || exit 2
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTFLAGS
# cargo goes by modification times; go by content as well
hash=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
stamp=target/.repo-content
if [ -e target ] && [ "$(cat $stamp 2>/dev/null)" != "$hash" ]; then
    rm -f "$stamp"
    cargo clean --release --offline -p circuit_converters -p vh >/dev/null 2>&1
fi
log=$(cargo build --release --offline 2>&1)
rc=$?
if [ $rc -ne 0 ]; then
    # perhaps only the circuit trait, which C30 implements, has other methods now
    log=$(cargo build --release --offline --no-default-features 2>&1)
    rc=$?
fi
if [ $rc -ne 0 ]; then
    printf '%s\n' "$log" | tail -60
    echo "ERROR: the harness does not build against /repo"
    exit 2
fi
printf '%s\n' "$hash" >"$stamp"
