#!/bin/bash
# check.sh ID quick|thorough: builds the harness from /repo's working tree and decides one
# property. Exit 0: held; 1: violation; 2: no answer
cd "$(dirname "$0")" || exit 2
target="${DCPV_TARGET:-/verif/target}"
# Executed by Miri
[ "$1" = C30 ] && exec python3 ./portable.py "$2"
# Built in several ways
[ "$1" = C32 ] && exec python3 ./builds.py "$2"
build=./build.sh
profile=release
case $1 in
# Integer overflow is a panic of the library in this profile
C20) profile=checked ;;
# A 32-bit program
C29)
    build=./build32.sh
    profile=checked
    target="$target/i686-unknown-linux-gnu"
    ;;
esac
$build "$profile" || { echo "check.sh: the build failed"; exit 2; }
exec "$target/$profile/dcpv" run "$1" "$2"
