#!/bin/bash
# usage: run.sh C01 [quick|thorough]   -- decides one property on /repo's working tree
#        run.sh build                  -- builds everything
#        run.sh replay FILE            -- replays a violation
here=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF="$here" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS
cd "$here/mc" || exit 2
instrument() { # C26 runs on a build with scheduling points at every atomic operation
    export CARGO_TARGET_DIR="$here/target/sched" RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER="$here/mc/tsan-rustc.sh"
}
build() { # features
    # cargo decides by modification time; a tree swapped in place can keep it, so
    # never reuse an earlier build of the code under test.
    find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'il2-iltags-*' -exec rm -rf {} + 2>/dev/null
    log="$CARGO_TARGET_DIR/build-$$.log"
    mkdir -p "$CARGO_TARGET_DIR"
    cargo build --offline --quiet --release --features "$1" >"$log" 2>&1
    rc=$?
    if [ $rc -ne 0 ]; then grep -A12 '^error' "$log" | head -60; echo "harness error: build failed"; rm -f "$log"; exit 2; fi
    rm -f "$log"
}
case "$1" in
build) build all; instrument; build c26 ;;
replay)
    id=$(sed -n 's/^"property": "\(.*\)",$/\1/p' "$2")
    [ "$id" = C26 ] && instrument
    build "${id,,}"
    exec "$CARGO_TARGET_DIR/release/mc" replay "$2" ;;
C[0-9]*)
    [ -n "$2" ] && export VERIF_TIER="$2"
    [ "$1" = C26 ] && instrument
    build "${1,,}"
    exec "$CARGO_TARGET_DIR/release/mc" check "$1" ;;
*) echo "usage: run.sh ID [quick|thorough]"; exit 2 ;;
esac
