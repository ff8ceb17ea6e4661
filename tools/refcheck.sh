#!/bin/bash
# the checks on copies of /repo in which much of the code is written differently and does the same: all must be quiet
set -e
R=$(mktemp -d /tmp/refcheck.XXXXXX); trap 'rm -rf "$R"' EXIT
for d in /verif/refactors /verif/refactors/second; do
    rm -rf "$R/repo"
    git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$R"
    git -C "$R/repo" init -q; git -C "$R/repo" apply "$d"/*.diff
    VERIF_REPO=$R/repo VERIF_BUILD=$R/build /verif/tools/runall.sh "$@"
done
