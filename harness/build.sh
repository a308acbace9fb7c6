#!/bin/bash
# Builds the harness from /repo's current tree: LLVM IR (after LTO) and a native
# binary made from that IR.   usage: build.sh OUTDIR -> OUTDIR/harness.{ll,bin}
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"; mkdir -p "$out"
cc -O1 -c "$here/native.c" -o "$out/native.o"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$out/target"
unset RUSTC_WRAPPER
# little inlining: keeps `BuildHasher::hash_one` a call that the executor can stub
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -C llvm-args=-inline-threshold=0 -C llvm-args=-inlinehint-threshold=0"
cd "$here"
find "$out/target/sym/deps" -maxdepth 1 -name 'harness-*' -delete 2>/dev/null || true
touch src/main.rs
cargo rustc --offline --profile sym -- --emit=llvm-ir,link -C save-temps -C link-arg="$out/native.o" 2>&1
ls "$out"/target/sym/deps/harness-????????????????.ll > "$out/lls"
[ "$(wc -l < "$out/lls")" = 1 ] || { echo "expected one .ll"; cat "$out/lls"; exit 1; }
ll="$(cat "$out/lls")"
cp "$ll" "$out/harness.ll"
cp "${ll%.ll}" "$out/harness.bin"
# SipHash must be confined to hash_one (see DESIGN.md)
awk '/^define/{f=$0} /8317987319222330741/{ if (f !~ /BuildHasher8hash_one/) {print "SipHash inlined in " substr(f,1,300); bad=1} } END{exit bad}' "$out/harness.ll"
find "$out/target/sym/deps" -maxdepth 1 -name 'harness-*' ! -name '*.d' -size +3M -name '*.bc' -delete
