#!/bin/bash
# Builds the driver against /repo's current working tree. Prints nothing on success.
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=${VERIF_INCREMENTAL:-1}
export CARGO_TARGET_DIR="${VERIF_TARGET:-$HERE/../build/target}"
export ORT_LIB_LOCATION=/nonexistent
export CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_LINKER="$HERE/cc-without-ort"
BUILD="$HERE/../build"; mkdir -p "$BUILD"
[ "$BUILD/shim.so" -nt "$HERE/shim.c" ] || gcc -shared -fPIC -O1 -o "$BUILD/shim.so" "$HERE/shim.c"
python3 "$HERE/mirror.py" "$BUILD/acorn"
[ -e "$HERE/driver/Cargo.lock" ] || cp "$BUILD/acorn.lock" "$HERE/driver/Cargo.lock"
cd "$HERE/driver"
cargo build --offline "$@"
