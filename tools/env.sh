# Sourced by setup.sh and check.sh: the offline cargo set-up of this sandbox.
. /opt/vp/scope/env.sh
export CARGO_TARGET_DIR="$PWD/build/target" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS RUSTC_WRAPPER
