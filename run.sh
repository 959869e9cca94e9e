#!/bin/bash
# Build the checker against /repo's current tree and run one check.
#   run.sh <ID>            decide a property (VERIF_TIER=thorough: deeper)
#   run.sh replay <file>         replay a recorded violation
#   run.sh build                 build only
cd "$(dirname "$0")" || exit 2
exec </dev/null
export VERIF_ROOT="$PWD"
export RUSTFLAGS="-W pub_use_of_private_extern_crate"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_TARGET_DIR
mkdir -p target .work replays evidence
# cargo decides by file times; a changed tree with old times must not be missed
SUM=$(cd /repo && find . -name '*.rs' -o -name Cargo.toml | grep -v '/target/' | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -c1-32)
LOCK=target/.lock
exec 9>"$LOCK"; flock 9
if [ "$(cat target/.sum 2>/dev/null)" != "$SUM" ]; then
    rm -f target/.sum
    (cd mc && cargo clean --offline --release --target-dir ../target/mc -p json -p json_derive -p json_quote -p json_parse) >/dev/null 2>&1
    (cd dv && cargo clean --offline --target-dir ../target/dv) >/dev/null 2>&1
fi
if ! (cd mc && cargo build --offline --release --target-dir ../target/mc) >target/build.log 2>&1; then
    cat target/build.log
    echo "the checker does not build against /repo"
    exit 2
fi
if ! (cd dv && cargo build --offline --target-dir ../target/dv --message-format=json-render-diagnostics) >target/dv.json 2>target/build.log; then
    cat target/build.log
    echo "/repo does not build"
    exit 2
fi
echo "$SUM" >target/.sum
flock -u 9
BIN=target/mc/release/mc
case "$1" in
    build) exit 0 ;;
    replay) exec "$BIN" replay "$2" ;;
    *) exec "$BIN" check "$1" "$PWD" ;;
esac
