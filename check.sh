#!/bin/bash
# usage: check.sh ID [thorough | case N]      (tier and seed from VERIF_TIER and VERIF_SEED)
# Builds what the check needs from /repo's working tree and runs it.
ID="${1:?usage: check.sh ID [case N]}"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export KMON_ROOT="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$KMON_ROOT/target"
cd "$KMON_ROOT" || exit 2
LOG="$KMON_ROOT/target/build-$ID.log"
mkdir -p "$KMON_ROOT/target"
# cargo goes by the times of files: forget what was built from other sources whose files are not older
SRC="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$SRC" != "$(cat target/.sources 2>/dev/null)" ]; then
  find "$KMON_ROOT/target" -path '*/.fingerprint/*koopa*' -prune -exec rm -rf {} + 2>/dev/null
  echo "$SRC" > target/.sources
fi
build() { # build DIR [cargo args]
  local d="$1"; shift
  if ! (cd "$d" && cargo build --offline "$@") > "$LOG" 2>&1; then
    tail -40 "$LOG" >&2
    if [ "$d" = charness ]; then
      # is it the interface as a C client sees it that has changed?
      for c in walk client; do
        if ! clang-18 -Wall -Werror -I/repo/libkoopa/include -fsyntax-only "charness/c/$c.c" >> "$LOG" 2>&1; then
          mkdir -p replays; cp "$LOG" "replays/$ID-header.txt"
          echo "a C client no longer compiles against koopa.h"
          echo "VIOLATION property=$ID replay=$KMON_ROOT/replays/$ID-header.txt"
          exit 1
        fi
      done
    fi
    echo "INCONCLUSIVE: harness does not build" >&2
    exit 2
  fi
}
asan() { # asan DIR [cargo args]: with AddressSanitizer
  RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$KMON_ROOT/target/asan" \
    build "$@" --target x86_64-unknown-linux-gnu
}
BIN="$KMON_ROOT/target/debug/kmon"
case "$ID" in
  C12|C13|C14)
    asan charness
    BIN="$KMON_ROOT/target/asan/x86_64-unknown-linux-gnu/debug/lkmon"
    export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:max_malloc_fill_size=65536:hard_rss_limit_mb=3000
    ;;
  C23|--build)
    [ "$ID" = --build ] && asan charness
    asan mharness
    export XDG_CACHE_HOME="$KMON_ROOT/target/cache"
    # builds the standard library and the libraries for Miri; "none" is no command, so nothing runs
    if ! (cd mharness && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$KMON_ROOT/target/miri" cargo miri run --release --offline -- none) > "$LOG" 2>&1 \
      && ! grep -q '^usage: mmon' "$LOG"; then
      tail -40 "$LOG" >&2
      echo "INCONCLUSIVE: Miri can not run the harness" >&2
      exit 2
    fi
    BIN="$KMON_ROOT/target/asan/x86_64-unknown-linux-gnu/debug/mmon"
    export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:max_malloc_fill_size=65536:hard_rss_limit_mb=3000
    ;;&
  C23) ;;
  --build) build harness ;;
  *) build harness ;;
esac
case "$ID" in
  C20|--build) CARGO_TARGET_DIR="$KMON_ROOT/target/nolog" build harness --features nolog ;;
esac
[ "$ID" = --build ] && exit 0
[ "$2" = thorough ] && export VERIF_TIER=thorough
if [ "$2" = case ]; then
  exec "$BIN" case "$ID" "$3"
fi
exec "$BIN" check "$ID"
