#!/bin/bash
# Builds the simulator from /repo's working tree. Cargo goes by modification times: when the sources
# differ from those of the last build, the crates made from them are built anew whatever their times.
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
sum="$(find /repo/core /repo/command "$PWD/src" "$PWD/build.rs" "$PWD/Cargo.toml" "$PWD/Cargo.lock" -name target -prune -o -type f -print0 |
  sort -z | xargs -0 sha256sum | sha256sum)"
mkdir -p target
if [ "$(cat target/sources.sum 2>/dev/null)" != "$sum" ]; then
  rm -f target/sources.sum
  cargo clean --release --offline -p gc-core -p gc-command -p gcsim >/dev/null 2>&1
fi
log="$(mktemp)"
if ! cargo build --release --offline >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "build.sh: the simulator does not build" >&2
  exit 2
fi
rm -f "$log"
echo "$sum" >target/sources.sum
