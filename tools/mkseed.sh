#!/bin/bash
# mkseed.sh <id> <property> <crates,comma> : seeded/<id>/ from tools/demo; expects patch.diff main.rs meta already written there
D=/verif/seeded/$1; mkdir -p $D
cp /verif/tools/demo/demo.sh /verif/tools/demo/mock.rs $D/
cp /verif/tools/demo/Cargo.toml.in $D/
for c in ${3//,/ }; do
  p=$(ls -d /repo/contracts/$c /repo/packages/$c 2>/dev/null | head -1); echo "$c = { path = \"@REPO@${p#/repo}\" }" >> $D/Cargo.toml.in
done
