#!/bin/bash
# check.sh build            build the simulator against /repo's working tree
# check.sh check ID [...]   build, then decide one property
# check.sh <anything else>  build, then pass the arguments to vpsim
set -u
cd /verif || exit 3
. /verif/env.sh
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.check.lock"
flock 9
# the build is decided by content, not by time stamps
sum=$( { find /repo/src /verif/sim/src -type f -print0; printf '%s\0' /repo/Cargo.toml /repo/Cargo.lock /verif/sim/Cargo.toml /verif/sim/Cargo.lock /verif/env.sh; } | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
stamp="$CARGO_TARGET_DIR/.vpsim.sum"
if [ ! -x "$CARGO_TARGET_DIR/debug/vpsim" ] || [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  /bin/rm -f "$stamp"
  log=$(mktemp)
  (cd sim && cargo clean --offline -p vatsim-parser -p vpsim >/dev/null 2>&1; cargo build --offline) >"$log" 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then
    cat "$log" >&2
    /bin/rm -f "$log"
    echo "build failed" >&2
    exit 3
  fi
  /bin/rm -f "$log"
  echo "$sum" >"$stamp"
fi
flock -u 9
[ "${1:-}" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/vpsim" "$@"
