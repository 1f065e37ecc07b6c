#!/bin/bash
# Builds the harness against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="-W dependency_on_unit_never_type_fallback -Awarnings"
mkdir -p harness/target evidence replays
exec 9>harness/target/.mc-lock
flock 9
# Cargo judges freshness by modification times; judge by content as well.
hash=$( (cd /repo && cat Cargo.toml Cargo.lock 2>/dev/null; find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$hash" != "$(cat harness/target/.repo-hash 2>/dev/null)" ]; then
    rm -f harness/target/.repo-hash
    (cd harness && cargo clean --offline -q -p hyperborealib 2>/dev/null)
fi
(cd harness && cargo build --offline -q 2>harness.log || { cat harness.log; rm -f harness.log; exit 2; }; rm -f harness.log) >&2 || exit 2
echo "$hash" > harness/target/.repo-hash
