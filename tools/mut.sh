#!/bin/bash
# mut.sh PATCH|- PROP...   runs checks against a scratch copy of /repo with the patch applied (development aid)
set -e; V=$(dirname "$(dirname "$(readlink -f "$0")")")
D=$(mktemp -d /tmp/mut.XXXXXX); mkdir -p $D/repo
cp -a /repo/include /repo/src $D/repo/
if [ "$1" != "-" ]; then (cd $D/repo && git init -q . && git apply "$1"); fi
shift
for p in "$@"; do VERIF_REPO=$D/repo python3 $V/run.py check $p || true; done
rm -rf "$D"
