#!/bin/bash
# Builds the harness (three profiles) against /repo's current working tree.
# usage: bash build.sh ; the binaries are target/P/P/harness for P in checked, release, guided
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$VERIF/harness" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
log=$(mktemp -d) || exit 2
export CARGO_INCREMENTAL=0
# cargo decides staleness by modification times; do not trust them for the code
# under test: when its content differs from what was last built, start over.
stamp=$( { rustc --version; cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
one() {
    local profile=$1 dir=$VERIF/target/$1
    if [ "$(cat "$dir/stamp" 2>/dev/null)" != "$stamp" ]; then
        rm -rf "$dir"
    fi
    if [ "$profile" = guided ]; then
        export RUSTC_WRAPPER=$VERIF/rustc-cov.sh
    fi
    cargo build --offline --profile "$profile" --target-dir "$dir" > "$log/$profile" 2>&1 || return 1
    echo "$stamp" > "$dir/stamp"
}
one checked & a=$!
one release & b=$!
one guided & c=$!
rc=0
wait $a || { rc=2; tail -n 40 "$log/checked" >&2; }
wait $b || { rc=2; tail -n 40 "$log/release" >&2; }
# The coverage-guided search is an extra: without it the checks still run.
wait $c || { rm -rf "$VERIF/target/guided"; echo "note: no instrumented build" >&2; tail -n 5 "$log/guided" >&2; }
rm -rf "$log"
exit $rc
