#!/bin/bash
# check.sh build | check.sh <property> <quick|thorough> | check.sh replay <file>
# Builds the simulator against /repo's current tree and runs one check.
set -u
root=$(cd "$(dirname "$0")/.." && pwd)
cd "$root/sim" || exit 3
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable} CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=1
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
t0=$(date +%s.%N)
# The first variant that compiles is used: with the guarded seam for the library's float
# type; without it (the control register and the generic float types remain); with the
# library's own float types only.
try() { # name rustflags cargo-args...
    local name=$1 flags=$2; shift 2
    log="$root/sim/target/$name.log"
    mkdir -p "$root/sim/target"
    RUSTFLAGS="$flags" cargo build --release --offline --locked --target-dir "$root/sim/target/$name" "$@" >"$log" 2>&1 || return 1
    bin="$root/sim/target/$name/release/scarlet-sim"
    variant=$name
}
try hook "--cfg scarlet_sim" || try seam "" || try plain "" --no-default-features || {
    tail -40 "$root/sim/target/plain.log"
    echo "harness error: the simulator does not build against /repo"
    exit 3
}
[ "$variant" = hook ] || echo "note: built without the float seam ($variant)"
[ "${1:-build}" = build ] && { echo "built $bin"; exit 0; }
export SIM_ROOT="$root" SIM_VARIANT="$variant" SIM_BUILD_S
SIM_BUILD_S=$(echo "$(date +%s.%N) $t0" | awk '{printf "%.3f", $1-$2}')
if [ "$1" = replay ]; then
    exec "$bin" replay "$2"
fi
exec "$bin" check "$1" "${2:-quick}"
