#!/bin/bash
# Builds the foreign machines from /repo's working tree and decides C17.
cd "$(dirname "$0")" || exit 2
V=$PWD
T=$V/target
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS MIRI_SYSROOT
mkdir -p "$T/foreign"
sum=$({ find /repo/src /repo/Cargo.toml "$V/foreign/src" "$V/foreign/Cargo.toml" -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum | cut -d' ' -f1)
machine() { # target, features: the interpreter's libraries, then the program, executed with an empty script
  local D=$T/foreign/$1
  mkdir -p "$D"
  [ "$(cat "$D/stamp" 2>/dev/null)" = "$sum" ] && return
  rm -f "$D/stamp"
  rm -rf "$D"/*/*/.fingerprint/chf-* "$D"/*/*/.fingerprint/chfforeign-*
  (cd "$D" && XDG_CACHE_HOME=$D/cache cargo +nightly miri setup --target "$1") >"$D/log" 2>&1 &&
    XDG_CACHE_HOME=$D/cache cargo +nightly miri run -q --offline --manifest-path "$V/foreign/Cargo.toml" \
      --target-dir "$D" --target "$1" --features "$2" -- "" >>"$D/log" 2>&1 </dev/null
  if [ $? = 0 ] || grep -q "Undefined Behavior" "$D/log"; then
    echo "$sum" >"$D/stamp"
  else
    echo "build: $1 does not build" >&2
    tail -20 "$D/log" >&2
  fi
}
machine s390x-unknown-linux-gnu std &
machine powerpc-unknown-linux-gnu std,small &
machine armv7-unknown-linux-gnueabihf "" &
(cd "$V/sim" && cargo build --offline -q --release --target-dir "$T/sim") || exit 2
wait
for t in s390x-unknown-linux-gnu powerpc-unknown-linux-gnu armv7-unknown-linux-gnueabihf; do
  [ -f "$T/foreign/$t/stamp" ] || exit 2
done
export CHFSIM_ROOT=$V
exec ./target/sim/release/chfsim foreign
