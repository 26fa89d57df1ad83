#!/bin/bash
# mut.sh <patch> <pid>: run a check on a scratch copy of /repo with a patch applied
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo "$d/repo"
git -C "$d/repo" apply "$1" || { echo "patch does not apply"; rm -rf "$d"; exit 9; }
VERIF_REPO="$d/repo" python3 /verif/check.py "$2"; rc=$?
rm -rf "$d"
exit $rc
