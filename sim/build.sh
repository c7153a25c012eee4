#!/bin/bash
# Builds the simulator around /repo's current working tree, twice: as `cargo build` would build the
# library (debug: overflow checks, no optimisation) and as a release would.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.80.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${PLCSIM_TARGET:-$(cd .. && pwd)/target}"
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_INCREMENTAL=0
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export RUSTFLAGS="-Awarnings"
mkdir -p "$CARGO_TARGET_DIR" || exit 2
exec 9> "$CARGO_TARGET_DIR/lock"
flock 9
# what was built from is remembered by content, not by time stamps
now=$( (find /repo/src . -type f -not -path './target/*' -print0 | sort -z | xargs -0 sha256sum; rustc -V) | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/built" 2>/dev/null)" = "$now" ] &&
   [ -x "$CARGO_TARGET_DIR/d/debug/plcsim" ] && [ -x "$CARGO_TARGET_DIR/r/release/plcsim" ]; then
  exit 0
fi
rm -f "$CARGO_TARGET_DIR/built"
rm -rf "$CARGO_TARGET_DIR"/d/debug/.fingerprint/{iec61131std,plcsim}-* "$CARGO_TARGET_DIR"/r/release/.fingerprint/{iec61131std,plcsim}-*
cargo build --offline --locked --target-dir "$CARGO_TARGET_DIR/d" > "$CARGO_TARGET_DIR/build-dev.log" 2>&1 9>&- &
d=$!
cargo build --offline --locked --release --target-dir "$CARGO_TARGET_DIR/r" > "$CARGO_TARGET_DIR/build-rel.log" 2>&1 9>&-
r=$?
wait $d || r=1
if [ $r -ne 0 ]; then
  cat "$CARGO_TARGET_DIR"/build-*.log
  exit 2
fi
echo "$now" > "$CARGO_TARGET_DIR/built"
