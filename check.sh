#!/bin/bash
# check.sh <property> [options of the check binary]: builds what the check needs from /repo's
# working tree and runs it. Exit 0: held; 1 with a VIOLATION line: broken; 2: no verdict.
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
id=$1
case "$id" in
  C25) crate=harness_utils bin=dbmlcheck-utils; export RUSTFLAGS="--cfg dbml_verif" ;;
  *) crate=harness bin=dbmlcheck ;;
esac
T=$V/target/$crate
mkdir -p "$T"
build() {
  # never trust time stamps: the crate is rebuilt whenever its content differs from the last build
  sum=$(cd /repo && { find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
  if [ "$(cat "$T/stamp" 2>/dev/null)" != "$sum" ]; then
    rm -f "$T/stamp"
    rm -rf "$T"/release/.fingerprint/dbml-rs-*
  fi
  cargo build --release --offline --manifest-path "$V/$crate/Cargo.toml" --target-dir "$T" >"$T/build.log" 2>&1 || return 1
  echo "$sum" >"$T/stamp"
}
exec 9>"$T/lock"
flock 9
if ! build; then
  tail -n 60 "$T/build.log" >&2
  echo "$id: the harness does not build against /repo (no verdict)" >&2
  exit 2
fi
exec 9>&-
[ "$id" = build ] && exit 0
shift
exec "$T/release/$bin" "$id" --out "$V/evidence" --known "$V/KNOWN_FINDINGS.md" "$@"
