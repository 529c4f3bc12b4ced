#!/bin/bash
# check.sh ID: build the simulator with the library of /repo's working tree and
# run the check of one property (VERIF_TIER quick or thorough, VERIF_SEED).
set -u
cd "$(dirname "$0")/sim" || exit 2
export RUSTC_WRAPPER="$PWD/rustc-wrapper.sh" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! cargo build --release --offline >"$log" 2>&1; then
  tail -n 40 "$log"
  echo "the simulator does not build"
  exit 2
fi
[ "$1" = build ] && exit 0
./target/release/dst check --property "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}"
