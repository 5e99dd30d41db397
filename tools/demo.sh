#!/bin/bash
# Builds demo.rs against the crate in the current directory (the repository) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/scratch"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/Cargo.lock" "$t/"
cp -r "$here/webpki" "$t/webpki"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "conf"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ksusig = { path = "$repo" }
p256 = { version = "0.13", features = ["ecdsa", "pkcs8", "pem"] }
p384 = { version = "0.13", features = ["ecdsa", "pkcs8", "pem"] }
sha2 = "0.10"
[patch."https://github.com/Kernel-SU/webpki"]
rustls-webpki = { path = "webpki" }
[profile.dev]
debug = 0
EOF
cd "$t" || exit 2
CARGO_TARGET_DIR="$t/target" cargo build --offline --quiet || { echo "demo does not build"; exit 2; }
SCRATCH="$t/scratch" "$t/target/debug/conf"
