#!/bin/bash
# Run with the tree under test as working directory; exit 0 if the property holds in this demonstration.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
rustc --edition 2015 --crate-name claxon --crate-type rlib -O -C overflow-checks=on --cap-lints allow -o "$T/libclaxon.rlib" src/lib.rs || exit 4
cp "$HERE/demo.rs" "$HERE/flac.rs" "$T/"
rustc --edition 2021 --crate-name demo -O -C overflow-checks=on --cap-lints allow -L "$T" --extern claxon="$T/libclaxon.rlib" -o "$T/demo" "$T/demo.rs" || exit 5
timeout 120 "$T/demo"
