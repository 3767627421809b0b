#!/bin/bash
# tools/tryseed.sh ID [check|all]: verifies a planted bug in /tmp/w/repo (copy of /repo) and runs its property's check on it
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
R=/tmp/w/repo
if [ ! -d $R ]; then cp -a /repo $R; fi
git -C $R checkout -q -- . ; git -C $R fetch -q /repo HEAD; git -C $R reset -q --hard FETCH_HEAD
if [ "$2" = all ]; then
  (cd $R && bash $d/demo.sh >/tmp/w/d0.log 2>&1); echo "$id demo clean rc=$? (want 0)"
fi
git -C $R apply $d/patch.diff || { echo "$id PATCH FAILS"; exit 1; }
if [ "$2" = all ]; then
  (cd $R && bash $d/demo.sh >/tmp/w/d1.log 2>&1); echo "$id demo bug rc=$? (want !=0)"; tail -2 /tmp/w/d1.log | cut -c1-200
  . /opt/vp/env.sh
  (cd $R && export CARGO_TARGET_DIR=$R/target && cargo test --workspace --all-features --no-fail-fast --offline > /tmp/w/t.log 2>&1); echo "$id tests rc=$?"; grep -E "^test result: F|FAILED" /tmp/w/t.log | head -3
fi
cd /verif; CFG_REPO=$R python3 sa/check.py $prop 2>&1 | cut -c1-300 | tail -4
git -C $R checkout -q -- .
