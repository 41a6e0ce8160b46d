#!/bin/bash
# usage: fuzz.sh ID SECONDS [PROPERTY]   coverage-guided campaign over raw inputs for property ID
# (thorough tier). Leaves build/fuzz/ID/{corpus,artifacts,stats.json}. With PROPERTY, the corpus that was
# found is then judged by that property as well.
# exit 0: nothing found; 1: violation (line printed); 2: could not run
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; SECS=$2; FOR=${3:-$1}
LOG=$V/build/fuzz-$FOR.log; : >"$LOG"
D=$V/build/fuzz/$FOR
NTV=$V/build/harness/release/ntv
mkdir -p "$D/corpus" "$D/artifacts" "$D/seeds"
rm -f "$D"/artifacts/* "$D"/corpus/* "$D"/stats.json
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
"$NTV" fuzz-seeds "$D/seeds" || exit 2
if ! (cd "$V/fuzz" && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu cargo fuzz build --fuzz-dir "$V/fuzz" --target-dir "$V/build/fuzz-target" -s "${NTV_SAN:-none}" -O raw) >>"$LOG" 2>&1; then
  echo "building the fuzz target failed:"; tail -20 "$LOG"; exit 2
fi
BIN=$V/build/fuzz-target/x86_64-unknown-linux-gnu/release/raw
export NTV_FUZZ=$ID
ulimit -s unlimited 2>/dev/null || ulimit -s hard 2>/dev/null
( cd "$D" && "$BIN" "$D/corpus" "$D/seeds" -fork=8 -max_len=9000 -len_control=0 -dict="$V/fuzz/dict.txt" \
  -max_total_time="$SECS" -timeout=60 -rss_limit_mb=3000 -artifact_prefix="$D/artifacts/" -seed="${VERIF_SEED:-1}" ) >>"$LOG" 2>&1
last=$(grep -a '^#[0-9]*: cov:' "$LOG" | tail -1)
execs=$(sed -n 's/^#\([0-9]*\): .*/\1/p' <<<"$last"); cov=$(sed -n 's/.* cov: \([0-9]*\).*/\1/p' <<<"$last")
printf '{"engine":"libFuzzer","oracle":"%s","seconds":%s,"executions":%s,"edges_covered":%s,"corpus_files":%s,"start_inputs":%s}\n' \
  "$ID" "$SECS" "${execs:-0}" "${cov:-0}" "$(ls "$D/corpus" | wc -l)" "$(ls "$D/seeds" | wc -l)" >"$D/stats.json"
for a in "$D"/artifacts/*; do
  [ -e "$a" ] || continue
  mkdir -p "$V/build/replay"; r=$V/build/replay/$FOR-$(basename "$a"); cp "$a" "$r"
  # a smaller one that fails as well, if that can be done in one process
  cp "$r" "$r.min"; if timeout 200 "$NTV" raw-min "$ID" "$r.min" && [ -s "$r.min" ]; then mv "$r.min" "$r"; else rm -f "$r.min"; fi
  timeout 300 "$NTV" raw "$ID" "$r"; rc=$?
  if [ $rc = 1 ] && [ "$FOR" = "$ID" ]; then exit 1; fi
  if [ $rc -ge 124 ] && [ "$FOR" = "$ID" ]; then
    echo "property $ID broken: the process does not survive this input"; echo "VIOLATION property=$ID replay=$r"; exit 1
  fi
done
if [ "$FOR" != "$ID" ]; then
  "$NTV" raw "$FOR" "$D/corpus"; rc=$?
  [ $rc = 1 ] && exit 1
  [ $rc -gt 1 ] && exit 2
fi
exit 0
