#!/usr/bin/env bash
# check.sh build                      build the harness against /repo's working tree
# check.sh <property> <quick|thorough> run one check (exit 0 held, 1 violated, 3 no answer)
# check.sh replay <file>               run a recorded violation again
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
h="$here/harness"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$h/target"
mkdir -p "$h/target" "$here/evidence"

fingerprint() {
    {
        rustc --version
        ( cd /repo && find Cargo.toml Cargo.lock contracts packages .cargo rust-toolchain rust-toolchain.toml \
            -type f -not -path '*/target/*' -not -path '*/node_modules/*' 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum )
        ( cd "$h" && find Cargo.toml Cargo.lock src fixtures -type f | LC_ALL=C sort | xargs -d '\n' sha256sum )
    } | sha256sum | cut -d' ' -f1
}

build() {
    (
        flock 9
        # Judge by content: file times need not move when a file changes.
        want="$(fingerprint)"
        if [ "$(cat "$h/target/.built" 2>/dev/null)" = "$want" ] &&
            [ -x "$h/target/release/obmon" ] && [ -x "$h/target/release/obmath" ]; then
            exit 0
        fi
        rm -f "$h/target/.built" "$h/target/release/obmon" "$h/target/release/obmath"
        ( cd "$h" && cargo clean --offline --release -p sumtree-orderbook -p obmon >/dev/null 2>&1 )
        if ! ( cd "$h" && cargo build --offline --release --bins >"$h/target/build.log" 2>&1 ); then
            # one unusable binary must not silence the other
            ( cd "$h" && cargo build --offline --release --bins --keep-going >>"$h/target/build.log" 2>&1 )
            tail -40 "$h/target/build.log"
            exit 3
        fi
        echo "$want" >"$h/target/.built"
    ) 9>"$h/target/.lock"
}

case "${1:-}" in
build)
    build
    exit $?
    ;;
replay)
    build || exit 3
    if grep -qE '"property": *"C1[01]"' "$2"; then
        exec "$h/target/release/obmath" replay "$2"
    fi
    exec "$h/target/release/obmon" replay "$2"
    ;;
esac

id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
case "$id" in
C10 | C11) bin=obmath ;;
*) bin=obmon ;;
esac
if ! build && [ ! -x "$h/target/release/$bin" ]; then
    echo "INCONCLUSIVE property=$id: the harness does not build against /repo"
    exit 3
fi
# a runaway allocation must end the check's child process, not the sandbox
ulimit -v $(( (14 + 2 * $(nproc)) * 1048576 )) 2>/dev/null
exec "$h/target/release/$bin" check --prop "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" \
    --evidence "$here/evidence/$id.json" --replays "$here/evidence/replays"
