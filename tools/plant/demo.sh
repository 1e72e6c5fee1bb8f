#!/bin/bash
# Run with the repository as the working directory. Builds a small program against it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/kit.rs" "$d/src/kit.rs" && cp "$here/Cargo.lock" "$d/" || exit 2
printf '[package]\nname="demo"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[dependencies]\ngif={path="%s"}\n' "$PWD" > "$d/Cargo.toml"
cd "$d" && timeout 250 cargo run --quiet --offline
