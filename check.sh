#!/bin/bash
# usage: check.sh <property> [quick|thorough]   decide one property
#        check.sh --build                       build everything (setup)
#        check.sh --replay FILE                 re-execute a recorded case
# exit 0: held; 1: VIOLATION line printed; anything else: the check itself failed
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR=$here CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
unset CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
T=$here/target
mkdir -p "$T" "$here/evidence"

# cargo decides by file times; copies of the tree may carry misleading ones,
# so what was built is remembered by content
fingerprint() {
    { find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum
      sha256sum /repo/Cargo.toml
      find "$here/harness" -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
    } | sha256sum | cut -d' ' -f1
}

# features of a configuration (full: the default ones)
features() {
    case "$1" in
    bare) echo ;;
    nostd) echo full ;;
    std) echo std ;;
    rand) echo p_rand ;;
    serde) echo p_serde ;;
    stdrand) echo std,p_rand ;;
    stdserde) echo std,p_serde ;;
    esac
}
tdir() { [ "$1" = full ] && echo "$T" || echo "$T/$1"; }

# build <profile> <features>
build() {
    local profile=$1 feat=$2 dir f=() bin
    dir=$(tdir "$feat")
    [ "$feat" = full ] || f=(--no-default-features --features "$(features "$feat")")
    bin=$dir/$profile
    [ "$profile" = dev ] && bin=$dir/debug
    local stamp=$bin/vh.stamp
    mkdir -p "$bin"
    (
        flock 9
        if [ "$(cat "$stamp" 2>/dev/null)" != "$FP" ] || [ ! -x "$bin/vh" ]; then
            rm -f "$stamp"
            rm -rf "$bin"/.fingerprint/apint-* "$bin"/.fingerprint/vh-*
            CARGO_TARGET_DIR=$dir cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" --profile "$profile" "${f[@]}" >"$bin/build.log" 2>&1 || exit 1
            echo "$FP" >"$stamp"
        fi
    ) 9>"$bin/vh.lock"
}
path() {
    local dir
    dir=$(tdir "$2")
    [ "$1" = dev ] && echo "$dir/debug/vh" || echo "$dir/$1/vh"
}
# all given configurations at once
build_all() {
    local pids=() c rc=0
    for c in "$@"; do
        build "${c%:*}" "${c#*:}" &
        pids+=($!)
    done
    for c in "${pids[@]}"; do wait "$c" || rc=1; done
    return $rc
}
broken() {
    echo "check error: the harness does not build against /repo" >&2
    grep -h -A8 '^error' "$T"/*/build.log "$T"/*/*/build.log 2>/dev/null | head -40 >&2
    exit 2
}

FP=$(fingerprint)
case "${1:-}" in
--build)
    build_all plain:full release:bare plain:bare release:full release:nostd release:std release:rand release:serde release:stdrand release:stdserde || broken
    exit 0
    ;;
--replay)
    b=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("build",""))' "$2") || exit 2
    p=release f=full
    case "$b" in no-assertions*) p=plain ;; esac
    case "$b" in
    *no-std,no-serde,no-rand*) f=bare ;;
    *no-std,no-serde,rand*) f=rand ;;
    *no-std,serde,no-rand*) f=serde ;;
    *no-std,serde,rand*) f=nostd ;;
    *std,no-serde,no-rand*) f=std ;;
    *std,no-serde,rand*) f=stdrand ;;
    *std,serde,no-rand*) f=stdserde ;;
    esac
    build "$p" "$f" || broken
    exec "$(path $p $f)" --replay "$2"
    ;;
C[0-9]*) ;;
*) echo "usage: check.sh <property> [quick|thorough] | --build | --replay FILE" >&2; exit 2 ;;
esac

prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier
case "$prop" in
C22) cfgs=(plain:full release:bare plain:bare release:full release:nostd release:std release:rand release:serde release:stdrand release:stdserde) ;;
C23) cfgs=(release:full) ;;
*) cfgs=(release:full plain:full) ;;
esac
[ "$prop$tier" = C22thorough ] && cfgs+=(dev:full plain:nostd plain:std plain:rand plain:serde plain:stdrand plain:stdserde)
[ "$prop$tier" = C23thorough ] && cfgs+=(plain:full)

VH_PARTS=$(mktemp -d "$T/parts.XXXXXX") || exit 2
export VH_PARTS
trap 'rm -rf "$VH_PARTS"' EXIT
rm -f "$here/evidence/$prop.json"

# with C22 a configuration that no longer builds while the usual one does is a verdict
if ! build_all "${cfgs[@]}"; then
    build release full || broken
    [ "$prop" = C22 ] || broken
    for c in "${cfgs[@]}"; do
        if ! build "${c%:*}" "${c#*:}"; then
            mkdir -p "$here/replays"
            r=$here/replays/C22-build-${c/:/-}.log
            b=$(tdir "${c#*:}")
            cp "$b/${c%:*}/build.log" "$r"
            # only when it is the library that does not compile
            grep -q 'could not compile `apint`' "$r" || broken
            printf '{"property":"C22","tier":"%s","seed":%s,"level":"model_checking","coverage":{"states":1,"transitions":1,"traces_validated_against_impl":0,"exhaustive":false,"samples":["build %s"]},"wall_s":0,"violations":1}\n' "$tier" "${VERIF_SEED:-1}" "$c" >"$here/evidence/C22.json"
            echo "VIOLATION property=C22 replay=$r"
            echo "  the library does not build in configuration $c"
            exit 1
        fi
    done
    broken
fi

for c in "${cfgs[@]}"; do
    VH_OPT=opt3
    [ "${c%:*}" = dev ] && VH_OPT=opt0
    export VH_OPT
    "$(path "${c%:*}" "${c#*:}")" "$prop" --tier "$tier"
    rc=$?
    [ $rc -ne 0 ] && exit $rc
done
exit 0
