#!/bin/bash
# usage: bash tools/seeded.sh [ID...]: applies each seeded bug to a copy of /repo, and says whether it builds, passes the
# tests, its demonstration tells it from the unchanged tree, and which verdict the check of its property gives.
# OTHER="C01 C02" also runs other checks.
V=$(cd "$(dirname "$0")/.." && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
[ $# = 0 ] && set -- $(ls "$V/seeded")
for id; do
  W=/tmp/seedrun.$$
  git -C /repo worktree add -q --detach $W HEAD || exit 1
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  D=/tmp/seeddemo.$$; mkdir -p $D; cp "$V/seeded/$id/"* $D/; rm -f $D/*.diff $D/meta.json
  R=
  (cd $W && timeout 300 bash $D/demo.sh) >/tmp/seed.demo0.$$ 2>&1; C=$?
  [ $C = 0 ] || R="$R demo-fails-clean($C)"
  git -C $W apply "$V/seeded/$id/patch.diff" || R="$R does-not-apply"
  (cd $W && go build ./...) >/dev/null 2>&1 || R="$R does-not-build"
  if [ -z "$NOTEST" ]; then
    (cd $W && go test -json -vet=off -count=1 -parallel 1 -timeout 10m ./...) > /tmp/seed.t.$$ 2>/dev/null
    N=$(python3 - /tmp/seed.t.$$ <<'P'
import json,sys
n=f=0
for l in open(sys.argv[1]):
    e=json.loads(l)
    if e.get('Test'):
        n+=e['Action']=='pass'; f+=e['Action']=='fail'
print('%d/%d'%(n,f))
P
)
  fi
  (cd $W && timeout 300 bash $D/demo.sh) >/tmp/seed.demo1.$$ 2>&1; C=$?
  [ $C = 0 ] && R="$R demo-passes-with-bug"
  for p in $P $OTHER; do
    S=$(date +%s)
    VERIF_REPO=$W bash "$V/check.sh" $p >/tmp/seed.out.$$ 2>&1; C=$?
    R="$R $p=$C($(($(date +%s)-S))s)"
    [ $p = $P ] && [ $C = 1 ] && R="$R caught"
  done
  echo "$id: tests $N$R"
  [ -n "$SHOW" ] && head -c 1500 /tmp/seed.out.$$
  git -C /repo worktree remove --force $W; git -C /repo worktree prune
  rm -rf /tmp/seeddemo.$$ /tmp/seed.*.$$
done
