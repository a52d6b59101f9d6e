#!/bin/bash
set -e
cd /verif && python3 tools/gen.py
cd build/core
RUSTUP_TOOLCHAIN=1.94 RUSTFLAGS="--cfg symex -Cno-vectorize-loops -Cno-vectorize-slp -Clinker=/bin/true" CARGO_TARGET_DIR=/verif/build/t-ir cargo rustc --offline --profile ir --target x86_64-unknown-linux-gnu --lib --crate-type cdylib -- --emit=llvm-ir 2>&1 | tail -${1:-5}
