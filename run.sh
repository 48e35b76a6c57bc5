#!/bin/bash
# run.sh <property> [--replay FILE]: builds what the property's check needs
# from the current tree of /repo and runs it.
# exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD REPO_DIR=${REPO_DIR:-/repo} CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
T=$VERIF_DIR/target W=$VERIF_DIR/work
id=${1:?property}
mkdir -p "$T" "$W" evidence
log=$W/build-$id.log
: > "$log"
step() { "$@" >> "$log" 2>&1 || { echo "BUILD FAILED: $*"; tail -40 "$log"; exit 2; }; }

[ -e "$REPO_DIR/Cargo.lock" ] || cp harness/repo.Cargo.lock "$REPO_DIR/Cargo.lock"

plugin() {
    step cargo build --offline --manifest-path "$REPO_DIR/Cargo.toml" --target-dir "$T/plugin" -p sudo_pair -p deny_everything
    step cargo build --offline --manifest-path "$REPO_DIR/Cargo.toml" --target-dir "$T/plugin" -p sudo_pair -p deny_everything --release
    export VERIF_PLUGIN_DIR=$T/plugin
}
shim() {
    step gcc -O1 -fPIC -shared -Wall -Wno-nonnull-compare -U_FORTIFY_SOURCE -fno-builtin -fno-delete-null-pointer-checks -o "$T/shim.$$.so" shim/shim.c -ldl
    mv "$T/shim.$$.so" "$T/shim.so"
    export VERIF_SHIM=$T/shim.so
}
harness() { step cargo build --offline --manifest-path harness/Cargo.toml --target-dir "$T/harness" -p "$1"; }

case $id in
    setup) plugin; shim; harness vpair; harness vplug; harness vabi; harness vscript; echo "built"; exit 0 ;;
    C0[1-9]|C1[0-3]|C26|C28|C29)
        plugin; shim; harness vpair
        LD_PRELOAD=$VERIF_SHIM exec "$T/harness/debug/vpair" "$@" ;;
    C1[4-9]|C2[0-3]|C30)
        if [ "$id" = C22 ]; then
            plugin
            export VERIF_PAIR_VERSION=$(sed -n "s/^version *= *[\"']\(.*\)[\"'].*/\1/p" "$REPO_DIR/sudo_pair/Cargo.toml" | head -1)
        fi
        harness vplug
        exec "$T/harness/debug/vplug" "$@" ;;
    C25)
        harness vscript
        exec "$T/harness/debug/vscript" "$@" ;;
    C24|C27)
        plugin
        # a declaration the header has and a binding lacks shows when the harness is compiled against it
        if [ "$id" = C24 ] && ! cargo build --offline --manifest-path harness/Cargo.toml --target-dir "$T/harness" -p vabi >> "$log" 2>&1; then
            if grep -qE "^error\[E0(609|560)\]: .*no field|^error\[E0(412|425|433|573)\]: cannot find .* in (module|crate) .(aarch64_text|x86_text|x86_64_text|native|library|b)" "$log" && ! grep -q "could not compile .sudo_plugin" "$log"; then
                mkdir -p "$W/replay"; cp "$log" "$W/replay/C24-declarations.log"
                grep -E "^error" "$log" | head -3
                echo "VIOLATION property=C24 replay=$W/replay/C24-declarations.log"; exit 1
            fi
            tail -40 "$log"; exit 2
        fi
        harness vabi
        exec "$T/harness/debug/vabi" "$@" ;;
    *) echo "unknown property $id"; exit 2 ;;
esac
