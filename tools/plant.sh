#!/bin/bash
# plant.sh ID [CHECK...]: confirms a planted bug (seeded/ID) in a scratch copy of /repo and runs the given checks on it (default: its property)
. /opt/vp/env.sh
S=/verif/seeded/$1; id=$1; shift
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/demo"; cp "$S"/demo* "$T/demo"; git -C /repo archive HEAD --prefix=repo/ | tar x -C "$T"; cd "$T/repo" || exit 2
bash "$T/demo/demo.sh" >"$T/demo0" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "does not apply"; exit 2; }
go build ./... || echo "BUILD FAILS"
t=skipped
if [ -z "$NOTEST" ]; then
go test -json -vet=off -count=1 -timeout 5m -skip '^(TestComplex|TestReferenceSelfReferencing)$' ./... > "$T/test.log"
python3 /opt/vp/results.py "$T/o.json" "gojson:$T/test.log"
t=$(python3 -c "
import json
n=lambda x:set(x if isinstance(x,list) else x.keys())
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$T/o.json'))
k=next(k for k in ('passed','stable','tests','pass') if k in b)
print('missing',sorted(n(b[k])-n(o.get('passed') or o.get('pass'))))")
fi
bash "$T/demo/demo.sh" >"$T/demo1" 2>&1; d1=$?
echo "$id: demo clean=$d0 patched=$d1 tests: $t"
[ $d0 = 0 ] || head -20 "$T/demo0"
[ $d1 != 0 ] || echo "DEMO PASSES WITH PATCH"
for c in ${@:-$P}; do VERIF_REPO="$T/repo" bash /verif/tools/check.sh $c quick > "$T/c" 2>&1; echo "  check $c exit $? $(grep -c VIOLATION "$T/c")"; grep -A1 -m1 VIOLATION "$T/c" | cut -c1-400; done
