#!/bin/bash
# check.sh build | check.sh ID [hrsim check options]
# Rebuilds the simulator against /repo's working tree, then decides property ID.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/sim/target"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# by content, not by timestamp: a tree that was copied or checked out may carry old ones
now=$( (cd /repo && find Cargo.toml src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd - >/dev/null; sha256sum sim/Cargo.toml sim/src/*) | sha256sum)
if [ "$(cat sim/target/stamp 2>/dev/null)" != "$now" ]; then
    (cd sim && cargo clean --offline -q -p hash-roll -p hrsim) >/dev/null 2>&1
fi
if ! (cd sim && cargo build --offline --locked -q) >sim/build.log 2>&1; then
    cat sim/build.log
    echo "check.sh: the simulator does not build against /repo"
    exit 2
fi
echo "$now" >sim/target/stamp
[ "$1" = build ] && exit 0
exec sim/target/debug/hrsim check "$@" --dir "$PWD"
