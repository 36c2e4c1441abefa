#!/bin/bash
# Builds the harness for 32-bit x86, and with it the library. Rust's standard library is
# built from its sources; the C library is the run time one (there are no development
# files), hence the start-up code here. Usage: build32.sh release|checked
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${DCPV_TARGET:-/verif/target}"
cd "$(dirname "$0")/harness" || exit 2
lib="$CARGO_TARGET_DIR/m32"
mkdir -p "$lib" || exit 2
for l in c dl m pthread rt util gcc_s; do
    f=$(ls /usr/lib32/lib$l.so.[0-9]* | head -1)
    [ -n "$f" ] || exit 2
    ln -sfn "$f" "$lib/lib$l.so"
done
as --32 m32/start.s -o "$lib/start.o" || exit 2
link="-Crelocation-model=static"
for a in -m32 -nostdlib -no-pie "$lib/start.o" "-L$lib" -Wl,-dynamic-linker,/usr/lib32/ld-linux.so.2; do
    link="$link -Clink-arg=$a"
done
known="--check-cfg=cfg(dcp_verif,dcp_verif_neon)"
cargo="cargo build -Zbuild-std=std,panic_unwind --target i686-unknown-linux-gnu --offline --quiet --profile $1"
RUSTFLAGS="--cfg dcp_verif $known $link" $cargo && exit 0
RUSTFLAGS="$known $link" $cargo || exit 2
echo "build32.sh: built without the instruction set override" >&2
