#!/bin/bash
# usage: check.sh ID quick|thorough   (run in /verif; rebuilds against /repo's working tree)
set -u
cd "$(dirname "$0")"
V=$PWD
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1} NTV_ROOT=$V
export CARGO_TARGET_DIR=$V/build/harness CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=${NTV_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
mkdir -p build evidence
if ! (cd harness && cargo build --release --offline --locked) >build/build-$ID.log 2>&1; then
  echo "harness build failed:"; tail -40 build/build-$ID.log; exit 2
fi
case $ID in P18|P19|P21) tools/probes.sh "$ID" "$TIER" || exit $? ;; esac
rm -f "build/fuzz/$ID/stats.json"
if [ "$TIER" = thorough ]; then
  # coverage-guided campaigns, where bytes alone can be judged
  case $ID in
    P01|P12|P13|P15|P17) tools/fuzz.sh "$ID" "${NTV_FUZZ_SECONDS:-1200}" || exit $? ;;
    P18|P19) tools/fuzz.sh P13 "${NTV_FUZZ_SECONDS:-600}" "$ID" || exit $? ;;
  esac
fi
exec build/harness/release/ntv run "$ID" "$TIER"
