#!/bin/bash
# dev tool: seed.sh ID [checks...]: confirm a planted change (tests pass, demo discriminates) and run checks on it
ID=$1; shift
D=/verif/seeded/$ID
P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $D/meta.json)
cd /repo || exit 1
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
(bash $D/demo.sh >/tmp/demo.out 2>&1); r0=$?
fi
git apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIPDEMO" ]; then
bash /verif/tools/t.sh
(bash $D/demo.sh >/tmp/demo2.out 2>&1); r1=$?
echo "$ID [$P]: demo clean=$r0 patched=$r1"; tail -3 /tmp/demo2.out
[ $r0 != 0 ] && tail -5 /tmp/demo.out
fi
for c in ${@:-$P}; do
  (cd /verif; bash check.sh $c > /tmp/chk.out 2>&1; echo "  check $c exit $?: $(grep -m1 VIOLATION /tmp/chk.out)"; grep -m1 counterexample /tmp/chk.out | cut -c1-200; tail -1 /tmp/chk.out | cut -c1-250)
done
