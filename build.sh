#!/bin/bash
# Builds, from /repo's current working tree, the instrumented simulation binary,
# the library scenario binary and the driver, all under /verif/target (ignored by
# git). Nothing is written in /repo.
#   build.sh [sim|lib|drv|all]
set -euo pipefail
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${WIMBD_REPO:-/repo}"
WHAT="${1:-all}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS || true
OUT="${SIM_OUT:-$HERE/target}"
mkdir -p "$OUT/rt" "$OUT/lock"
exec 9>"$OUT/build.lock"
flock 9
TRIPLE=x86_64-unknown-linux-gnu

rt() {
  local h
  h="$(cat "$HERE/simrt/simrt.c" "$HERE/simrt/simrt.h" | sha256sum | cut -c1-16)"
  SIMRT_OBJ="$OUT/rt/simrt-$h.o"
  if [ ! -f "$SIMRT_OBJ" ]; then
    clang -O2 -g1 -fno-sanitize=all -fno-omit-frame-pointer -c "$HERE/simrt/simrt.c" -o "$SIMRT_OBJ.tmp"
    mv "$SIMRT_OBJ.tmp" "$SIMRT_OBJ"
  fi
}

# cargo trusts file times; the tree under test may have been swapped behind its
# back, so a changed content hash drops the crate's fingerprints.
fresh() { # dir-of-target stamp-name fingerprint-glob
  local h
  h="$(cd "$REPO" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)"
  if [ "$(cat "$1/$2.stamp" 2>/dev/null || true)" != "$h" ]; then
    find "$1" -type d -path '*.fingerprint/*' -name "$3" -prune -exec rm -rf {} + 2>/dev/null || true
    mkdir -p "$1"
    STAMP="$1/$2.stamp"; STAMPV="$h"
  else
    STAMP=""
  fi
}
stamp() { if [ -n "$STAMP" ]; then echo "$STAMPV" > "$STAMP"; fi; }

simflags() {
  echo "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 -Crelocation-model=static --cfg wimbd_sim -Clink-arg=$SIMRT_OBJ -Clink-arg=-rdynamic -Clink-arg=-ldl -Copt-level=1 -Cdebug-assertions=on -Coverflow-checks=on"
}

sim() {
  rt
  rm -f "$OUT/lock/Cargo.lock"; cp "$REPO/Cargo.lock" "$OUT/lock/Cargo.lock"
  fresh "$OUT/sim" wimbd 'wimbd-*'
  (cd "$REPO" && RUSTC_BOOTSTRAP=1 RUSTFLAGS="$(simflags)" CARGO_PROFILE_DEV_DEBUG=line-tables-only \
    cargo build --offline --quiet --config "resolver.lockfile-path=\"$OUT/lock/Cargo.lock\"" \
      --target "$TRIPLE" --target-dir "$OUT/sim" --bin wimbd)
  stamp
}
lib() {
  rt
  fresh "$OUT/lib" wimbd '*wimbd*'
  sed "s#@REPO@#$REPO#" "$HERE/libsim/Cargo.toml.in" > "$HERE/libsim/Cargo.toml.tmp"
  cmp -s "$HERE/libsim/Cargo.toml.tmp" "$HERE/libsim/Cargo.toml" && rm -f "$HERE/libsim/Cargo.toml.tmp" || mv "$HERE/libsim/Cargo.toml.tmp" "$HERE/libsim/Cargo.toml"
  (cd "$HERE/libsim" && RUSTC_BOOTSTRAP=1 RUSTFLAGS="$(simflags)" CARGO_PROFILE_DEV_DEBUG=line-tables-only \
    cargo build --offline --quiet --locked --target "$TRIPLE" --target-dir "$OUT/lib")
  stamp
}
drv() {
  (cd "$HERE/simdrv" && cargo build --offline --quiet --locked --release --target-dir "$OUT/drv")
}
case "$WHAT" in
  sim) sim ;;
  lib) lib ;;
  drv) drv ;;
  all) sim; if [ -d "$HERE/libsim" ]; then lib; fi; drv ;;
esac
