#!/bin/bash
# builds main.rs against the crates of the repository in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
relib-common = { path = "$repo/common" }
relib-bdd = { path = "$repo/bddcore" }
relib-mdd = { path = "$repo/mddcore" }
relib-bss = { path = "$repo/bss" }
relib-mss = { path = "$repo/mss" }
X
cd "$t" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q
