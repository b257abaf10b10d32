#!/bin/bash
# check.sh <property>|build|replay <file>: rebuild the simulator around /repo's current
# sources, then decide one property.  Exit 0 held, 1 violated, 2 the machinery failed.
cd "$(dirname "$0")" || exit 2
V=$PWD
mkdir -p work
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL
export RUSTFLAGS="--cfg fix_rs_sim" CARGO_NET_OFFLINE=true
(
    flock 9
    # cargo goes by modification times; a checkout can bring older ones, so go by content
    now=$(cd /repo && find src build resources Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$now" != "$(cat sim/target/stamp 2>/dev/null)" ]; then
        rm -f sim/target/stamp
        (cd sim && cargo clean --release --offline -p fix-rs) >work/clean.log 2>&1
    fi
    (cd sim && cargo build --release --offline) >work/build.log 2>&1 || { tail -40 work/build.log; exit 2; }
    echo "$now" >sim/target/stamp
) 9>work/lock || { echo "HARNESS-ERROR the simulator does not build"; exit 2; }
case "$1" in
    build) exit 0 ;;
    replay) exec "$V/sim/target/release/fixsim" replay "$2" ;;
    *) exec "$V/sim/target/release/fixsim" check "$1" --tier "${VERIF_TIER:-quick}" ;;
esac
