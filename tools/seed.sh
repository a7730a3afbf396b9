#!/bin/bash
# seed.sh NAME [PROP...]: development aid. Applies seeded/NAME/patch.diff to /repo, builds, runs the tests, the demo and the checks, undoes it.
N=$1; shift; D=/verif/seeded/$N; R=/repo
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
[ -z "$(git -C $R status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C $R checkout -q -- .; bash /opt/vp/build.sh tools >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh tools >/dev/null 2>&1
(cd $R && timeout 300 bash $D/demo.sh >/tmp/seed.demo0 2>&1); d0=$?
git -C $R apply $D/patch.diff || { echo "$N: patch does not apply"; exit 1; }
bash /opt/vp/build.sh tools >/tmp/seed.build 2>&1 || { echo "$N: does not build"; tail -5 /tmp/seed.build; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1; t=$(tail -1 /tmp/seed.test)
(cd $R && timeout 300 bash $D/demo.sh >/tmp/seed.demo1 2>&1); d1=$?
out="$N: demo clean=$d0 patched=$d1 tests: $t;"
for p in $P; do bash /verif/run.sh check $p >/tmp/seed.check 2>&1; rc=$?; v=$(grep -c "^VIOLATION property=$p" /tmp/seed.check); out="$out $p rc=$rc viol=$v"; done
echo "$out"
