#!/bin/bash
exec /verif/symex/target/release/symex /verif/build/t-ir/x86_64-unknown-linux-gnu/ir/deps/datafusion_distributed.ll "$@"
