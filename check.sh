#!/bin/bash
# check.sh Cxx quick|thorough : builds the simulator with the engine from /repo's working tree and
# runs the property's seeded simulations. check.sh setup : builds only.
# Exit 0: held; 1: VIOLATION line printed; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
. tools/env.sh
id="${1:?property id, or setup}"; tier="${2:-${VERIF_TIER:-quick}}"
mkdir -p sim/target
exec 9>sim/target/.check-lock; flock 9

# Cargo goes by time stamps; go by contents, so that any change in /repo is seen.
now=$( (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-64)
if [ -e sim/target/.engine ] && [ "$(cat sim/target/.engine)" != "$now" ]; then
  (cd sim && cargo clean -q --release --offline -p indexer -p glue -p dst) || exit 2
fi
compile() { (cd sim && cargo build -q --release --offline "$@" >target/build.log 2>&1); }
build() {
  if ! compile "$@"; then
    grep -E '^error' -A12 sim/target/build.log | head -40
    # The engine's data structures have moved: do without looking into them.
    if ! compile --no-default-features "$@"; then
      echo "build failed:"; grep -E '^error' -A12 sim/target/build.log | head -60
      rm -f /verif/sim/target/.engine
      exit 2
    fi
    echo "note: built without a view of the engine's data structures; only its answers are compared"
  fi
  echo "$now" >sim/target/.engine
}
if [ "$id" = setup ]; then build; build --features cli && exit 0; fi
if [ "$id" = C17 ]; then build --features cli; else build; fi
cp -f sim/target/release/dst sim/target/dst-"$id" || exit 2
flock -u 9
exec sim/target/dst-"$id" check --property "$id" --tier "$tier"
