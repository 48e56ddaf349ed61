# Sourced: build environment of the simulator.
. /opt/vp/env.sh 2>/dev/null
export CI=true CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
SIM_ROOT="${SIM_ROOT:-/verif}"
export CARGO_TARGET_DIR="$SIM_ROOT/target"
export RUSTC_WRAPPER="$SIM_ROOT/sim/rustc-wrap.sh"
export RUSTFLAGS="--cfg hop_sim"
unset CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_RUSTFLAGS
