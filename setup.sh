#!/bin/bash
# Checks build what they need themselves (the executor, and LLVM IR of /repo's
# current tree); here we only see that the tools are present and the executor builds.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
cargo +nightly --version; z3 --version
ls "$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library/std/Cargo.toml"
cargo build --release --offline --manifest-path engine/Cargo.toml --target-dir work/engine
