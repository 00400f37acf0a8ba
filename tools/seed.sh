#!/bin/bash
# seed.sh <id> [prop...] : confirm a planted bug in a scratch copy of /repo, then run the checks of the given properties against it there
. /opt/vp/env.sh
id=$1; shift
S=/verif/seeded/$id
W=/tmp/seedwork/$id
mkdir -p /tmp/seedwork
[ -n "$W" ] && rm -rf "/tmp/seedwork/$id"
cp -a /repo "$W"
cd "$W" || exit 2
bash $S/demo.sh > /tmp/seedwork/$id.base.log 2>&1 && echo "demo passes unchanged" || echo "!! demo FAILS unchanged"
git apply $S/patch.diff || { echo "!! patch does not apply"; exit 2; }
(cd go && go build ./... ) || echo "!! does not build"
(cd go && go vet ./... >/dev/null 2>&1) || true
bash $S/demo.sh > /tmp/seedwork/$id.demo.log 2>&1 && echo "!! demo passes with the change" || echo "demo fails with the change"
(cd go && go test ./... 2>&1 | grep -v "no test files" | grep -E "^(FAIL|---|ok)" | grep -E "FAIL" | grep -v -E "downloader|Test_SingleLookup|^FAIL$")
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for p in "$@"; do VERIF_REPO="$W" /verif/check $p | grep -v KNOWN | cut -c1-400; done
cd /; rm -rf "/tmp/seedwork/$id"
