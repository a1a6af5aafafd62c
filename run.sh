#!/bin/bash
# run.sh <property> <tier>: build the library of /repo's working tree (all versions) and the simulator, then search.
# run.sh build: only build.       run.sh replay <file>: run one recorded plan again.
set -u
cd "$(dirname "$0")" || exit 3
export VP_ROOT="$PWD" VP_REPO="${VP_REPO:-/repo}" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
build() {
  mkdir -p target/log
  local pids=() ok=0
  for f in v2024_11_05 v2025_03_26 v2025_06_18 v2025_11_25 v2026_07_28 vdraft; do
    (cd adapter && CARGO_TARGET_DIR="$VP_ROOT/target/ad_$f" cargo build --offline --features "$f" >"$VP_ROOT/target/log/$f" 2>&1) &
    pids+=($!)
  done
  (cd sim && CARGO_TARGET_DIR="$VP_ROOT/target/sim" cargo build --offline >"$VP_ROOT/target/log/sim" 2>&1) &
  pids+=($!)
  for p in "${pids[@]}"; do wait "$p" || ok=1; done
  if [ $ok != 0 ]; then
    echo "the framework does not build against the current tree:" >&2
    grep -h -A12 -E '^error' target/log/* | head -60 >&2
    exit 3
  fi
}
case "${1:-}" in
  build) build ;;
  replay) build; exec target/sim/debug/vp-sim replay "$2" ;;
  *) build; exec target/sim/debug/vp-sim check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" ;;
esac
