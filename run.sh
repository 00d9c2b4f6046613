#!/bin/bash
# ./run.sh --build          build the harness
# ./run.sh ID [--case L]    rebuild from /repo's working tree and run one check
root=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$root/target"
export VERIF_ROOT=$root CARGO_TARGET_DIR=$root/target CARGO_NET_OFFLINE=true
(
  flock 9
  cargo build --release --offline --manifest-path "$root/harness/Cargo.toml" >"$root/target/build.log" 2>&1
) 9>"$root/.lock"
rc=$?
if [ $rc -ne 0 ]; then
  tail -40 "$root/target/build.log"
  echo "build failed"
  exit 2
fi
[ "$1" = --build ] && exit 0
exec "$root/target/release/sett-mc" "$@"
