#!/bin/bash
# runs every claimed check; VERIF_REPO / VERIF_BUILD may point at a copy
cd "$(dirname "$0")/.."
bash setup.sh >/dev/null 2>&1
export O=$(mktemp -d /tmp/runall.XXXXXX); trap 'rm -rf "$O"' EXIT
ids=${*:-$(python3 -c "import json;print(' '.join(x['property'] for x in json.load(open('MANIFEST.json'))['checks']))")}
for i in $ids; do echo $i; done | xargs -P ${JOBS:-7} -I{} sh -c 's=$(date +%s); bash check.sh {} quick > $O/{} 2>&1; r=$?; e=$(date +%s); echo "{} rc=$r $((e-s))s $(grep -c "" $O/{})"; [ $r = 0 ] || grep -v "^KNOWN" $O/{} | head -6 | cut -c1-400'
