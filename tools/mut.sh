#!/bin/bash
# tools/mut.sh ID|PATCH P.. : applies to the scratch copy, runs the checks there, undoes
d=/verif/seeded/$1/patch.diff; [ -f "$d" ] || d=$1; shift
R=/tmp/w/repo; git -C $R checkout -q -- .; git -C $R fetch -q /repo HEAD; git -C $R reset -q --hard FETCH_HEAD; git -C $R apply $d || exit 1
cd /verif; for p in "$@"; do CFG_REPO=$R SAV=${SAV:-0} python3 sa/check.py $p 2>&1 | grep -v "^    ok" | cut -c1-${CUT:-400} | head -${N:-8}; done
git -C $R checkout -q -- .
