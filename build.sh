#!/bin/bash
# Builds the simulator against /repo's current working tree (offline).
cd "$(dirname "$0")/sim" || exit 3
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
mkdir -p target
exec 9>target/.build-lock
flock 9
# cargo goes by modification times; a copied or checked-out tree can carry misleading ones
h=$(cd /repo && find tree_iterators_rs -path '*/target' -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$h" ]; then
    rm -f target/.repo-hash
    for p in release deep plain; do
        [ -d target/$p ] && cargo clean --offline --profile $p -p tree_iterators_rs >/dev/null 2>&1
    done
fi
profile=${1:-release}
features=
[ "$profile" = plain ] && features=--no-default-features
out=$(cargo build --profile "$profile" $features --offline 2>&1)
if [ $? -ne 0 ]; then
    printf '%s\n' "$out" | grep -A12 -E '^error' | head -60
    echo "HARNESS-ERROR: the simulator does not build against /repo" >&2
    exit 3
fi
printf '%s' "$h" > target/.repo-hash
