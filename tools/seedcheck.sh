#!/bin/bash
# usage: seedcheck.sh <seed id> [--tests] [check ...]: try a planted bug in a scratch copy.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$w/repo"; rm -rf "$w/repo/.git/worktrees"
. /opt/vp/env.sh
cp -a "$here/seeded/$id" "$w/demo"
cd "$w/repo" || exit 1
export PYTHONPATH=$w/repo/lib PYTHONDONTWRITEBYTECODE=1
sed -i "s#/repo#$w/repo#g" "$w/demo/demo.sh"
bash "$w/demo/demo.sh" >"$w/o" 2>&1; echo "$id demo unpatched rc=$?"
git apply "$here/seeded/$id/patch.diff" || { echo "$id PATCH FAILS"; rm -rf "$w"; exit 1; }
bash "$w/demo/demo.sh" >"$w/o" 2>&1; echo "$id demo patched rc=$?"; tail -3 "$w/o"
if [ "$1" = --tests ]; then shift
  python -m pytest -q -p no:cacheprovider -n 8 --no-xvfb --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$w/j.xml" test >"$w/t.log" 2>&1
  python3 /opt/vp/results.py "$w/r.json" junit:"$w/j.xml" >/dev/null
  python3 - "$w/r.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open(sys.argv[1]))
p=set(r.get('passed') or [k for k,v in r.get('tests',r).items() if v in('passed','pass')])
m=[x for x in b if x not in p]; print(sys.argv[2],'stable tests failing:',len(m),m[:5])
P
fi
for c in "$@"; do
  (cd "$here" && VERIF_REPO="$w/repo" VERIF_EVID="$w/ev" ./run.sh "$c" >"$w/c.log" 2>&1; echo "$id check $c rc=$?"; grep -h "clause\|rror" "$w/c.log" | sort | uniq -c | sort -rn | head -4)
done
rm -rf "$w"
