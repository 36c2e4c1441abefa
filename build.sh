#!/bin/bash
# Builds the harness (and with it the library, from /repo's working tree) with the
# instruction set override compiled in. Usage: build.sh release|checked
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${DCPV_TARGET:-/verif/target}"
cd "$(dirname "$0")/harness" || exit 2
known="--check-cfg=cfg(dcp_verif,dcp_verif_neon)"
# With the instruction set override, and the neon code on a model of its instructions
export DCP_VERIF_NEON="$PWD/neon.rs"
export RUSTFLAGS="--cfg dcp_verif --cfg dcp_verif_neon $known"
cargo build --offline --quiet --profile "$1" && exit 0
# The neon code may use instructions the model lacks
export RUSTFLAGS="--cfg dcp_verif $known"
cargo build --offline --quiet --profile "$1" && {
    echo "build.sh: built without the neon code" >&2
    exit 0
}
# The override uses a few internals of the library. If they were renamed the checks are
# still possible, with the instruction sets the library chooses by itself
export RUSTFLAGS="$known"
cargo build --offline --quiet --profile "$1" || exit 2
echo "build.sh: built without the instruction set override" >&2
