#!/bin/bash
# bash tools/plant.sh ID: confirms a planted bug in a scratch copy of /repo (builds, stable tests pass, demo 0/nonzero).
set -u
D=/verif/seeded/$1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TZ=Australia/Sydney
T=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$T"' EXIT
cp -a /repo "$T/repo"; cp -a "$D" "$T/d"; rm -f "$T"/d/*.diff "$T"/d/meta.json
cd "$T/repo" && git checkout -q -- . && git clean -fdq
go build . || exit 2
bash "$T/d/demo.sh" >"$T/demo0" 2>&1; r0=$?
git apply "$D/patch.diff" || { echo "patch does not apply"; exit 2; }
go build . || { echo "does not build"; exit 2; }
go test -json -vet=off -count=1 -timeout 10m . > "$T/log" 2>&1
python3 - "$T/log" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None
B=json.load(open('/opt/vp/BASELINE.json'))
for k in ('stable','passed','pass','tests'):
    if k in B:
        v=B[k]; b=set(v if isinstance(v,list) else [t for t,s in v.items() if s in('pass','passed',True)]); break
ok=set(); bad=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e['Action'] in('pass','fail'):
        (ok if e['Action']=='pass' else bad).add(e['Test'])
names={x.split('::')[-1].split('/',1)[-1] if False else x for x in b}
miss=[x for x in names if not any(x==t or x.endswith(t) for t in ok) or any(x==t for t in bad)]
print("stable tests: %d, failing with the patch: %s"%(len(b),miss[:5]))
P
bash "$T/d/demo.sh" >"$T/demo1" 2>&1; r1=$?
echo "demo: unchanged $r0, patched $r1"
[ $r0 = 0 ] || tail -5 "$T/demo0"
[ $r1 != 0 ] || echo "NOT SHOWN"
tail -4 "$T/demo1"
