#!/bin/bash
# catch.sh [ID...]: applies each planted bug to a copy of /repo, laid over /repo in a
# private mount namespace together with a copy of /verif, and runs its property's check
# there. CHECK=Cnn runs another check; DIR=... takes the bugs from another folder.
if [ -z "${CATCH_INSIDE:-}" ]; then
    lab=$(mktemp -d /tmp/catch.XXXXXX) || exit 2
    mkdir "$lab/repo" "$lab/verif" "$lab/tmp"
    cp -a /repo/. "$lab/repo" && git -C "$lab/repo" checkout -q -- . && cp -a /verif/. "$lab/verif" || exit 2
    CATCH_INSIDE=$lab DIR=${DIR:-/verif/seeded} TMPDIR=$lab/tmp unshare -m bash "$0" "$@"
    rm -rf "$lab"
    exit
fi
lab=$CATCH_INSIDE
mount --bind "$lab/repo" /repo && mount --bind "$lab/verif" /verif || exit 2
cd /verif || exit 1
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls "$DIR"))
for id in "${ids[@]}"; do
    p=$(python3 -c "import json;print(json.load(open('$DIR/$id/meta.json'))['property'])")
    git -C /repo apply "$DIR/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    c=${CHECK:-$p}
    s=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} ./check.sh "$c" >"$lab/log" 2>&1; rc=$?
    git -C /repo checkout -q -- .
    echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(grep -c "^VIOLATION property=$c" "$lab/log") | $(grep -A1 '^  case:' "$lab/log" | tail -2 | tr '\n' ' ' | cut -c1-260)"
done
