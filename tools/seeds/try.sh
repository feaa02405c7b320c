#!/bin/bash
# try.sh ID [noTest]: applies a planted bug to /repo, runs its demo, the tests and the property's check, and undoes it
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "repo not clean"; exit 2; }
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && bash $D/demo.sh >/tmp/try_demo0.txt 2>&1; a=$?
git -C /repo apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; bash /opt/vp/gen.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/try_build.txt 2>&1 || echo BUILD-FAILED
cd /repo && bash $D/demo.sh >/tmp/try_demo1.txt 2>&1; b=$?
t=skipped
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/try_t.json >/dev/null 2>&1
 t=$(python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/try_t.json'))
def passed(x):
    return set(x.get('passed') or x.get('pass') or [k for k,v in x.items() if v in ('passed','pass',True)])
st=b["stable"]
print('tests-missing', sorted(set(st)-passed(r)))
E
)
fi
(cd /verif && bash run.sh $P >/tmp/try_check.txt 2>&1); c=$?
echo "$1 $P: demo clean=$a patched=$b; $t; check exit=$c $(grep -c VIOLATION /tmp/try_check.txt) | $(grep -m1 '^  \[' /tmp/try_check.txt)"
