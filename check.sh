#!/bin/bash
# check.sh ID [quick|thorough]     runs the check of a property
# check.sh replay FILE             repeats the execution of a replay file
# exit 0: the property held on everything explored, 1: violation, else: no answer
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
replay=()
if [ "$1" = replay ]; then
    [ -r "$2" ] || { echo "no such file: $2" >&2; exit 2; }
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    tier=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["tier"])' "$2") || exit 2
    replay=(--replay "$(realpath "$2")")
else
    id=$1
    tier=${2:-${VERIF_TIER:-quick}}
fi
[ "$tier" = thorough ] || tier=quick
export VERIF_TIER=$tier
bin=$(echo "$id" | tr A-Z a-z)
crate=harness
case $id in
    C19|C20|C21|C22) crate=poolmc; ;;
    C[0-9][0-9]) ;;
    *) echo "unknown property: $id" >&2; exit 2 ;;
esac

build() { # crate, target directory, arguments of cargo
    local crate=$1 target=$2 log
    shift 2
    log=$(CARGO_TARGET_DIR=$VERIF_DIR/$target cargo build --offline --locked --quiet \
        --manifest-path "$crate/Cargo.toml" "$@" 2>&1) || {
        echo "$log" >&2
        echo "the check of $id does not build" >&2
        exit 2
    }
}

if [ "$crate" = poolmc ]; then
    export RUSTFLAGS='--cfg mysql_connector_mc="pool"'
    build poolmc target-pool --bin "$bin"
    exec "target-pool/debug/$bin" "${replay[@]}"
fi
if [ "$id" = C04 ]; then
    # the same exploration for the build without the feature `time`
    build harness target --bin c04
    build harness target-notime --bin c04 --no-default-features --features caching
    if [ ${#replay[@]} -gt 0 ]; then
        exec "$(grep -q '"space": "no time' "$2" && echo target-notime || echo target)/debug/c04" "${replay[@]}"
    fi
    MC_EVIDENCE_SUFFIX=-notime target-notime/debug/c04 || exit $?
    exec target/debug/c04
fi
if [ "$id" = C09 ]; then
    # the same exploration for the build without the feature `caching-sha2-password`
    build harness target --bin c09
    build harness target-nosha2 --bin c09 --no-default-features --features time
    if [ ${#replay[@]} -gt 0 ]; then
        exec "$(grep -q '"space": "no sha2' "$2" && echo target-nosha2 || echo target)/debug/c09" "${replay[@]}"
    fi
    MC_EVIDENCE_SUFFIX=-nosha2 target-nosha2/debug/c09 || exit $?
    exec target/debug/c09
fi
if [ "$id" = C10 ]; then
    # the padding is exported by the hook
    export RUSTFLAGS='--cfg mysql_connector_mc="crypt"'
    if ! (build harness target-crypt --bin c10) 2>/dev/null; then
        echo "the hook does not build: encryption is explored by authentication only"
        unset RUSTFLAGS
        build harness target-crypt --bin c10
    fi
    exec target-crypt/debug/c10 "${replay[@]}"
fi
if [ "$id" = C17 ] || [ "$id" = C18 ]; then
    # the models of the family are programs of their own: one that no longer compiles, although all
    # the rest does, is a violation
    build harness target --lib
    log=$(CARGO_TARGET_DIR=$VERIF_DIR/target cargo build --offline --locked --quiet \
        --manifest-path harness/Cargo.toml --bin "$bin" 2>&1) || {
        echo "$log" >&2
        log=$(awk '/^(error|warning)/ { error = /^error/ } error' <<<"$log")
        if grep -q -- '--> .*/models\.rs:' <<<"$log"; then
            mkdir -p replays
            python3 - "$id" "$tier" "replays/$id.json" 3<<<"$log" <<'EOF'
import json, os, sys
log = os.fdopen(3).read()
json.dump({"property": sys.argv[1], "tier": sys.argv[2], "space": "compilation of the models",
           "choices": [], "message": log[:20000]}, open(sys.argv[3], "w"), indent=1)
EOF
            echo "violation: derived models of the family do not compile"
            echo "VIOLATION property=$id replay=$VERIF_DIR/replays/$id.json"
            exit 1
        fi
        echo "the check of $id does not build" >&2
        exit 2
    }
fi
build harness target --bin "$bin"
exec "target/debug/$bin" "${replay[@]}"
