#!/bin/bash
# trial.sh <seeded id | patch file> [--fast] [check ids...]: try a planted change in a private copy of /repo
# (mounted over /repo in a namespace of its own): demo before, build, stable tests, demo after, checks.
# --fast: no demo and no tests, only the checks.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
fast=; [ "$1" = --fast ] && { fast=1; shift; }
if [ -d "$here/seeded/$id" ]; then dir=$here/seeded/$id; patch=$dir/patch.diff; else patch=$(realpath "$id"); dir=$(dirname "$patch"); fi
ids="$*"
[ -z "$ids" ] && [ -f "$dir/meta.json" ] && ids=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$dir/meta.json")
w=$(mktemp -d /tmp/trial.XXXXXX)
cp -a /repo "$w/repo"; mkdir "$w/verif" "$w/work"
cp -a "$here/harness" "$here/run.sh" "$here/known_findings.txt" "$w/verif/"
[ -f "$dir/demo.sh" ] && { mkdir "$w/demo"; cp "$dir"/* "$w/demo/"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"; }
cat > "$w/in.sh" <<EOS
mount --bind $w/repo /repo && mount --bind $w/work /opt/vp/work || exit 9
cd /repo; git checkout -q -- .
if [ -z "$fast" ]; then
 if [ -f $w/demo/demo.sh ]; then bash $w/demo/demo.sh >$w/demo0.log 2>&1; echo "demo on clean tree: \$? (want 0)"; fi
fi
git apply $patch || { echo "PATCH DOES NOT APPLY"; exit 9; }
if [ -z "$fast" ]; then
 bash /opt/vp/build.sh >$w/build.log 2>&1; echo "build: \$? (want 0)"
 for k in 1 2; do
 bash /opt/vp/test.sh $w/o.json >$w/test.log 2>&1
 m=\$(python3 - <<'P'
import json
def names(d):
    if isinstance(d,dict):
        for k in ("tests","passed","stable","pass"):
            if k in d:
                v=d[k]; return set(v if isinstance(v,list) else v.keys())
    return set(d)
b=names(json.load(open("/opt/vp/BASELINE.json"))); o=json.load(open("$w/o.json"))
p=set(o["passed"]) if "passed" in o else names(o)
print(sorted(b-p)[:5], len(b))
P
)
 echo "stable tests not passing: \$m"; case "\$m" in "[] "*) break;; esac
 done
 if [ -f $w/demo/demo.sh ]; then bash $w/demo/demo.sh >$w/demo1.log 2>&1; r=\$?; echo "demo with patch: \$r (want nonzero)"; [ \$r != 0 ] && grep -vE '^(ok|=== |PASS)' $w/demo1.log | head -8 | cut -c1-300; [ \$r = 0 ] || true; fi
 [ -s $w/demo0.log ] && grep -E 'FAIL|error' $w/demo0.log | head -5
fi
for c in $ids; do
 s=\$(date +%s); bash $w/verif/run.sh \$c quick >$w/check-\$c.log 2>&1; r=\$?
 echo "check \$c: exit \$r \$((\$(date +%s)-s))s"; head -c 700 $w/check-\$c.log | head -4; grep -ah '^VIOLATION' $w/check-\$c.log
done
EOS
VERIF_SEED=${VERIF_SEED:-1} unshare -Urm bash "$w/in.sh"
rm -rf "$w"
