#!/bin/bash
# Builds the simulator and the machines of the fleet from /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
T=$V/target
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$T/images"

# Cargo judges by modification times; judge by content instead.
sum=$(cd /repo && { find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum | cut -d' ' -f1)
node=$(cd "$V/node" && find . -type f | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
stamp="$sum $node"
if [ "$(cat "$T/stamp" 2>/dev/null)" != "$stamp" ]; then
  rm -f "$T/stamp"
  for c in a b c d; do
    rm -rf "$T/$c"/*/.fingerprint/chf-* "$T/$c"/*/.fingerprint/chfnode-*
  done
  machine() { # config, then cargo arguments
    local c=$1
    shift
    (cd "$V/node" && RUSTFLAGS="--cfg chf_sim" cargo build --offline -q --target-dir "$T/$c" "$@") >"$T/$c.log" 2>&1
    echo $? >"$T/$c.rc"
  }
  machine a --release --features std,schema &
  machine b --profile checked --features std,small,schema &
  machine c --release &
  machine d --profile checked --features small &
  wait
  if [ "$(cat "$T/a.rc")" != 0 ]; then
    echo "build: the library does not build with the hooks on" >&2
    cat "$T/a.log" >&2
    exit 2
  fi
  # Machine -> build, as in sim/src/node.rs. A configuration that does not build is represented by
  # the default one, so that the rest can still be judged.
  i=0
  for c in a a a a a a b b c d; do
    p=release
    [ $c = b ] || [ $c = d ] && p=checked
    f=$T/$c/$p/libchfnode.so
    if [ "$(cat "$T/$c.rc")" != 0 ]; then
      [ $i = 6 ] || [ $i -gt 7 ] && { echo "build: configuration $c does not build" >&2; tail -20 "$T/$c.log" >&2; }
      f=$T/a/release/libchfnode.so
    fi
    rm -f "$T/images/img$i.so"
    cp "$f" "$T/images/img$i.so" || exit 2
    i=$((i + 1))
  done
  echo "$stamp" >"$T/stamp"
fi
(cd "$V/sim" && RUSTFLAGS="" cargo build --offline -q --release --target-dir "$T/sim") || exit 2
