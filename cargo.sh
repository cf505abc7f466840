#!/bin/bash
# cargo with the environment every build here uses: the repository's toolchain, offline, target in /verif/target.
export PATH="$HOME/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
export RUSTFLAGS="--cap-lints allow"
unset CARGO_ENCODED_RUSTFLAGS
cd /verif/harness && exec cargo "$@"
