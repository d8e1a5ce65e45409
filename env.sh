. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/verif/target
