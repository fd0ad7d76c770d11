#!/bin/bash
# build.sh PROFILE [TARGETDIR] - builds the worker for one profile; prints the path of the binary
cd "$(dirname "$0")"
log=$(mktemp); trap 'rm -f "$log"' EXIT
prof="$1"; dir="${2:-$PWD/target}"
export CARGO_NET_OFFLINE=true RUSTFLAGS="" CARGO_ENCODED_RUSTFLAGS=""
unset RUSTUP_TOOLCHAIN
unset CARGO_ENCODED_RUSTFLAGS RUSTFLAGS
case "$prof" in
  conc|concrel)
    RUSTC_WRAPPER="$PWD/tsan-wrap.sh" cargo +nightly build --offline -q -p vmain --profile "$prof" --target-dir "$dir/inst" >"$log" 2>&1 || { cat "$log" >&2; exit 2; }
    echo "$dir/inst/$prof/vmain" ;;
  dev)
    cargo +stable build --offline -q -p vmain --target-dir "$dir/plain" >"$log" 2>&1 || { cat "$log" >&2; exit 2; }
    echo "$dir/plain/debug/vmain" ;;
  release)
    cargo +stable build --offline -q -p vmain --release --target-dir "$dir/plain" >"$log" 2>&1 || { cat "$log" >&2; exit 2; }
    echo "$dir/plain/release/vmain" ;;
esac
