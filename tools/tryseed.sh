#!/bin/bash
# tryseed.sh <id> [check]: in a scratch copy: demo passes before, patch applies, builds, tests pass, demo fails; then run the property's check on it
id=$1; D=/verif/seeded/$id; W=/tmp/seedrepo
[ -d $W ] || cp -a /repo $W
cd $W && git checkout -q -- . && git clean -qfd -e target
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$2" != check ]; then
  bash $D/demo.sh >/tmp/seed.$id.0 2>&1; a=$?
  git apply $D/patch.diff || { echo "$id: patch does not apply"; exit 1; }
  . /opt/vp/env.sh
  cargo test --workspace --lib --bins --tests --offline >/tmp/seed.$id.t 2>&1; t=$?
  bash $D/demo.sh >/tmp/seed.$id.1 2>&1; bb=$?
  echo "$id: demo before=$a after=$bb tests=$t ($(grep -c BROKEN /tmp/seed.$id.1) broken line)"
else git apply $D/patch.diff || exit 1; fi
unset RUSTUP_TOOLCHAIN RUSTC_WRAPPER
VERIF_REPO=$W VERIF_BUILD=/tmp/seedbuild VW=150 bash /verif/check.sh $prop quick | tail -3 | cut -c1-300
git checkout -q -- .
