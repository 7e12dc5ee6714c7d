. /opt/vp/env.sh 2>/dev/null || { export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=; }
export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=1
unset CARGO_PROFILE_DEV_DEBUG
