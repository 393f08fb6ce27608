#!/bin/sh
# newpkg.sh pNN: skeleton of a harness package
cd "$(dirname "$0")/../h" || exit 1
mkdir -p $1/src/bin
cat > $1/Cargo.toml <<X
[package]
name = "h$1"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib", "rlib"]
[dependencies]
yaserde = { path = "/repo/yaserde", features = ["derive"] }
log = { version = "0.4", features = ["max_level_off", "release_max_level_off"] }
symrt = { path = "../symrt" }
util = { path = "../util" }
symrt_native = { path = "../symrt_native" }
[workspace]
[profile.release]
lto = "fat"
codegen-units = 1
panic = "unwind"
opt-level = 2
overflow-checks = true
debug = false
[profile.dev]
debug = "line-tables-only"
X
echo "fn main() { symrt_native::main(h$1::TABLE) }" > $1/src/bin/replay.rs
[ -f $1/Cargo.lock ] || cp p01/Cargo.lock $1/Cargo.lock
