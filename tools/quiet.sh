#!/bin/bash
# quiet.sh DIFF...: applies each change of form (behaviour as before) to a copy of /repo,
# laid over /repo in a private mount namespace, and runs every check; all must be quiet.
# CHECKS="C01 C02" runs only those. No check reads /verif/refactors.
if [ -z "${QUIET_INSIDE:-}" ]; then
    lab=$(mktemp -d /tmp/quiet.XXXXXX) || exit 2
    mkdir "$lab/repo" "$lab/verif" "$lab/tmp" "$lab/diffs"
    cp -a /repo/. "$lab/repo" && git -C "$lab/repo" checkout -q -- . && cp -a /verif/. "$lab/verif" || exit 2
    cp "$@" "$lab/diffs/" || exit 2
    QUIET_INSIDE=$lab TMPDIR=$lab/tmp unshare -m bash "$0"
    rm -rf "$lab"
    exit
fi
lab=$QUIET_INSIDE
mount --bind "$lab/repo" /repo && mount --bind "$lab/verif" /verif || exit 2
cd /verif || exit 1
for d in "$lab"/diffs/*; do
    git -C /repo apply "$d" || { echo "$(basename "$d"): does not apply"; continue; }
    for c in ${CHECKS:-$(seq -f 'C%02g' 1 30)}; do
        ./check.sh "$c" >"$lab/log" 2>&1; rc=$?
        [ $rc = 0 ] && continue
        echo "$(basename "$d") $c rc=$rc"; tail -4 "$lab/log" | cut -c1-600
    done
    git -C /repo checkout -q -- .
    echo "$(basename "$d") done"
done
