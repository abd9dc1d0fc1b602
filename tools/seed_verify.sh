#!/bin/bash
# seed_verify.sh ID: is the planted change /verif/seeded/ID a countable one? (builds, tests pass, demo fails with it
# and passes without it). Works on a copy of /repo; never touches /repo.
id=$1; seed=/verif/seeded/$id
t=$(mktemp -d /tmp/seedXXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"
mkdir "$t/vp"
for f in env.sh build.sh test.sh results.py; do sed "s#/repo#$t/repo#g; s#/opt/vp/env.sh#$t/vp/env.sh#g; s#/opt/vp/results.py#$t/vp/results.py#g" /opt/vp/$f > "$t/vp/$f"; done
mkdir "$t/demo"; cp "$seed"/* "$t/demo/"; rm -f "$t/demo/patch.diff" "$t/demo/meta.json"
cd "$t/repo" || exit 2
bash "$t/vp/build.sh" > "$t/build0" 2>&1 || { echo "$id: base does not build"; exit 1; }
timeout 300 bash "$t/demo/demo.sh" > "$t/demo0" 2>&1; r0=$?
git apply "$seed/patch.diff" || { echo "$id: does not apply"; exit 1; }
bash "$t/vp/build.sh" > "$t/build1" 2>&1 || { echo "$id: does not build"; grep -m5 -A8 '^error' "$t/build1"; exit 1; }
bash "$t/vp/test.sh" "$t/out.json" > "$t/test1" 2>&1
python3 - "$t/out.json" <<'PY' || { echo "$id: tests fail"; grep -E "FAILED|panicked" "$t/test1" | head; exit 1; }
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ("stable","passed","passes","tests"):
        if isinstance(x,dict) and k in x: x=x[k]; break
    if isinstance(x,dict): return {k for k,v in x.items() if v in (True,"pass","passed","ok")}
    return set(x)
m=names(b)-names(o)
print(len(names(b)),"stable,",len(m),"missing",sorted(m)[:3])
sys.exit(1 if m or not names(b) else 0)
PY
SECONDS=0
timeout 300 bash "$t/demo/demo.sh" > "$t/demo1" 2>&1; r1=$?
echo "$id: demo base=$r0 patched=$r1 (${SECONDS}s): $(tail -1 "$t/demo1" | cut -c1-160)"
[ $r0 != 0 ] && tail -5 "$t/demo0"
[ $r0 = 0 ] && [ $r1 != 0 ] && [ $r1 != 124 ]
