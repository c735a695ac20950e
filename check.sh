#!/bin/bash
# check.sh ID            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
# check.sh ID --replay F run the recorded case F again
# Builds the harness and the crate from /repo's current working tree, then runs the monitored workload.
# Exit: 0 held on everything observed, 1 + VIOLATION line, 2/3 no answer (build failure, nothing observed).
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT
ID=${1:?usage: check.sh ID [--replay FILE]}
shift
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTFLAGS
mkdir -p "$ROOT/build" "$ROOT/evidence"
FLAGS="-Awarnings"
FEATURES=$(echo "$ID" | tr C c)
hook() { # each hook-based check builds only the hooks it needs
    NAME=$1; FLAGS="$FLAGS --cfg algebraics_verif --cfg algebraics_verif=\"$1\""
}
case $ID in
    C01|C02|C03|C04|C05|C24|C25) NAME=numbers ;;
    C17) hook factor ;;
    C21) hook lattices ;;
    C22) hook grid ;;
    C23) hook quadratic ;;
    C27) hook utilities ;;
    *) NAME=core ;;
esac
log=$ROOT/build/build-$NAME-$$.log
trap 'rm -f "$log"' EXIT

build() { # harness-dir target-dir
    ( # one build at a time per target directory: the binary is taken out before the next one replaces it
        exec 9>"$2.lock" && flock 9 && cd "$1" &&
            RUSTFLAGS="$FLAGS" cargo build --release --offline --features "$FEATURES" --target-dir "$2" &&
            cp -f "$2/release/harness" "$BIN.new" && mv -f "$BIN.new" "$BIN"
    ) >"$log" 2>&1
}
# A harness on the modules other than algebraic_numbers and prelude, used when those do not compile.
scope_harness() {
    local s=$ROOT/build/scope h=$ROOT/build/scope-harness f n
    mkdir -p "$s/src" "$h" || return 1
    find "$s/src" -type l -delete
    for f in /repo/src/*; do
        n=$(basename "$f")
        case $n in lib.rs|algebraic_numbers.rs|prelude.rs) continue ;; esac
        ln -s "$f" "$s/src/$n" || return 1
    done
    ln -sfn /repo/README.md "$s/README.md"
    cp /repo/Cargo.toml "$s/Cargo.toml" || return 1
    grep -vE '^pub mod (algebraic_numbers|prelude);$|^pub use algebraic_numbers::' /repo/src/lib.rs >"$s/src/lib.rs"
    sed "s|path = \"/repo\"|path = \"$s\"|" "$ROOT/harness/Cargo.toml" >"$h/Cargo.toml"
    cp "$ROOT/harness/Cargo.lock" "$h/Cargo.lock"
    ln -sfn "$ROOT/harness/src" "$h/src"
}
T=$ROOT/build/$NAME
BIN=$ROOT/build/harness-$ID
if ! build "$ROOT/harness" "$T"; then
    T=$ROOT/build/$NAME-scope
    if [ $NAME = numbers ] || ! scope_harness || ! build "$ROOT/build/scope-harness" "$T"; then
        cat "$log" >&2
        echo "check.sh: the harness does not build against /repo" >&2
        exit 2
    fi
fi
if [ "${1:-}" = --replay ]; then
    exec "$BIN" replay "$ID" "$2"
fi
"$BIN" run "$ID"
