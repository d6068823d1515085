#!/bin/bash
# run.sh PROP [quick|thorough] [extra vx arguments]
# Rebuilds the checker, the IR of the harness together with /repo's current tree, and the native
# replay binary; then decides the property.  0 holds, 1 violation, 2 nothing could be decided.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"; shift; shift
f="$(echo "$prop" | tr 'A-Z' 'a-z')"
export RUSTUP_TOOLCHAIN="${VX_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
B="$here/build"
mkdir -p "$B" "$here/evidence" "$here/replays"
log="$B/log-$f"
( cd "$here/engine" && CARGO_TARGET_DIR="$B/engine" cargo build --release --offline >"$log-engine" 2>&1 ) & p1=$!
( cd "$here/harness/h" && CARGO_TARGET_DIR="$B/ir-$f" RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp --cfg vx_hooks" \
    cargo rustc --release --offline --crate-type cdylib --features "$f" -- --emit=llvm-ir >"$log-ir" 2>&1 ) & p2=$!
( cd "$here/harness/rt" && CARGO_TARGET_DIR="$B/nat-$f" RUSTFLAGS="--cfg vx_hooks" \
    cargo build --release --offline --features "$f" >"$log-nat" 2>&1 ) & p3=$!
bad=0
wait $p1 || { echo "ERROR: building the checker failed"; tail -30 "$log-engine"; bad=1; }
wait $p2 || { echo "ERROR: lowering the code to LLVM IR failed"; (grep -A9 "^error" "$log-ir" || tail -30 "$log-ir") | head -60; bad=1; }
wait $p3 || { echo "ERROR: building the native replay binary failed"; (grep -A9 "^error" "$log-nat" || tail -30 "$log-nat") | head -20; bad=1; }
# The structs of the C13 harness are inputs of the derive macro: an expansion that the compiler
# rejects is a counterexample of its own, when the rest of /repo compiles.
if [ $bad = 1 ] && [ "$prop" = C13 ] && grep -q 'derive macro `Model`\|proc-macro derive panicked' "$log-ir"; then
    if ( cd "$here/harness/h" && CARGO_TARGET_DIR="$B/ir-dep" cargo build --release --offline -p prima_undine -p prima_undine_derive -p prima_undine_contrib >"$log-dep" 2>&1 ); then
        r="$here/replays/C13-expansion.replay"
        { echo "# the code #[derive(Model)] generates for these structs of harness/h/src/c13.rs does not compile"
          echo "# replay: cd $here/harness/h && cargo check --offline --features c13"; cat "$log-ir"; } >"$r"
        echo "C13: the code that #[derive(Model)] generates for a struct does not compile"
        echo "VIOLATION property=C13 replay=$r"
        exit 1
    fi
fi
[ $bad = 0 ] || exit 2
"$B/engine/release/vx" check --prop "$prop" --ir "$B/ir-$f/release/deps/vxh.ll" --native "$B/nat-$f/release/vxrt" \
    --tier "$tier" --evidence "$here/evidence/$prop.json" --replays "$here/replays" \
    --known "$here/known_findings.txt" --bounds "$here/bounds.md" --seed "${VERIF_SEED:-1}" "$@"
