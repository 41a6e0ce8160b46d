#!/bin/bash
# usage: probes.sh P18|P19|P21 quick|thorough   builds the other builds of the crate (from /repo's working tree)
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
LOG=$V/build/probes-$1.log; : >"$LOG"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cd "$V/probe" || exit 2
# A feature set that no longer compiles while the default one does is a difference between feature sets.
differs() {
  mkdir -p "$V/build/replay"; cp "$LOG" "$V/build/replay/$1-build.log"
  echo "property $1 broken: $2 does not compile"
  grep -m3 -A8 '^error' "$LOG"
  echo "VIOLATION property=$1 replay=$V/build/replay/$1-build.log"
  exit 1
}
if [ "$1" = P18 ]; then
  export CARGO_TARGET_DIR=$V/build/probe
  for f in std alloc none; do
    for p in checked plain; do
      ff=""; [ $f != none ] && ff="--features $f"
      if ! cargo build --offline --locked --profile $p $ff >"$LOG" 2>&1; then
        if [ $f != std ] && grep -q 'could not compile `nt-hive`' "$LOG"; then differs P18 "the crate with feature set '$f' ($p)"; fi
        echo "probe build failed:"; tail -30 "$LOG"; exit 2
      fi
      cp -f "$CARGO_TARGET_DIR/$p/probe" "$V/build/probe-$f-$p"
    done
  done
fi
if [ "$1" = P21 ]; then
  cd "$V/readhive" || exit 2
  if ! CARGO_TARGET_DIR=$V/build/readhive cargo build --offline --locked >"$LOG" 2>&1; then
    echo "building examples/readhive.rs failed:"; tail -30 "$LOG"; exit 2
  fi
fi
if [ "$1" = P19 ]; then
  export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu XDG_CACHE_HOME=$V/build/xdg
  NEW=$V/build/p19-specs.json.new
  # 1. 32-bit little-endian, run natively. The C library is there, its start-up objects are not
  #    (the probe brings its own entry point).
  L32=$V/build/lib32; mkdir -p "$L32"
  for l in libgcc_s.so.1 libc.so.6 libm.so.6 libdl.so.2 libpthread.so.0 librt.so.1 libutil.so.1; do
    ln -sf /usr/lib32/$l "$L32/${l%.so*}.so"
  done
  [ -e "$L32/libgcc.a" ] || ar rc "$L32/libgcc.a"
  (
    export CARGO_TARGET_DIR=$V/build/probe-i686 CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER=gcc
    export CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_RUSTFLAGS="-Crelocation-model=static -Clink-arg=-nostartfiles -Clink-arg=-L$L32 -Clink-arg=-Wl,-dynamic-linker,/lib/ld-linux.so.2"
    cargo build -Zbuild-std=std,panic_unwind --offline --locked --target i686-unknown-linux-gnu --profile checked --features std
  ) >"$LOG.i686" 2>&1 &
  I686=$!
  # 2. other machines, interpreted. Isolation off: the interpreter reads requests from its standard input.
  export CARGO_TARGET_DIR=$V/build/probe-miri
  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
  targets="powerpc-unknown-linux-gnu"
  [ "$2" = thorough ] && targets="$targets s390x-unknown-linux-gnu"
  I686BIN=$V/build/probe-i686/i686-unknown-linux-gnu/checked/probe
  printf '[{"name":"i686-unknown-linux-gnu","every":1,"cwd":"%s","env":{},"argv":["%s"]}' "$V/build" "$I686BIN" >"$NEW"
  for t in $targets; do
    if ! cargo miri setup --target $t >>"$LOG" 2>&1; then kill $I686 2>/dev/null; echo "miri setup failed:"; tail -30 "$LOG"; exit 2; fi
    # an empty request stream: builds the probe and runs it once
    if ! cargo miri run --offline --locked --target $t --features std </dev/null >>"$LOG" 2>&1; then
      kill $I686 2>/dev/null
      if grep -q 'could not compile `nt-hive`' "$LOG"; then differs P19 "the crate for $t"; fi
      echo "probe does not run under miri:"; tail -30 "$LOG"; exit 2
    fi
    printf ',{"name":"%s","every":%s,"cwd":"%s","env":{"RUSTUP_TOOLCHAIN":"%s","XDG_CACHE_HOME":"%s","CARGO_TARGET_DIR":"%s","MIRIFLAGS":"%s","CARGO_NET_OFFLINE":"true"},"argv":["cargo","miri","run","-q","--offline","--locked","--target","%s","--features","std"]}' \
      $t 100 "$V/probe" "$RUSTUP_TOOLCHAIN" "$XDG_CACHE_HOME" "$CARGO_TARGET_DIR" "$MIRIFLAGS" $t >>"$NEW"
  done
  if ! wait $I686; then
    cat "$LOG.i686" >>"$LOG"
    if grep -q 'could not compile `nt-hive`' "$LOG"; then differs P19 "the crate for i686-unknown-linux-gnu"; fi
    echo "32-bit probe build failed:"; tail -30 "$LOG"; exit 2
  fi
  if ! "$I686BIN" </dev/null; then echo "the 32-bit probe does not run"; exit 2; fi
  printf ']' >>"$NEW"
  mv "$NEW" "$V/build/p19-specs.json"
fi
exit 0
