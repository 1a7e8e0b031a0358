#!/bin/bash
# usage: seedcheck.sh <seed id> [-q]   validates a planted bug in a scratch copy of /repo (builds, original lines, stable
# tests pass, demo) and (without -q) runs the quick check of its property against that copy. /repo is not touched.
id=$1; d=/verif/seeded/$id
. /opt/vp/env.sh
w=$(mktemp -d /tmp/seedwt.XXXXXX)
cp -a /repo $w/repo; mkdir $w/verif; cp -a /verif/harness /verif/known_findings.txt $w/verif/
cd $w/repo || exit 1
bash $d/demo.sh >/tmp/seed.demo0.$id 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "$w"; exit 1; }
python3 - <<'PY'
import subprocess,re
first=subprocess.check_output(['git','rev-list','--max-parents=0','HEAD']).decode().split()[0]
bad=[]
f=None
for l in subprocess.check_output(['git','diff','-U0']).decode().split('\n'):
    m=re.match(r'--- a/(.*)',l)
    if m: f=m[1]
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        n=int(m[2] or 1)
        if n==0: print('   only inserted behind line',m[1]); continue
        b=subprocess.check_output(['git','blame','-s','-L%s,+%d'%(m[1],n),'HEAD','--',f]).decode()
        own=[x for x in b.strip().split('\n') if not x.startswith('^')]
        if own: bad+=own
if bad: print('   changes lines of own commits:',bad[:3])
PY
(cd src && go build ./... ) || echo "$id BUILD FAILED"
bash $d/demo.sh >/tmp/seed.demo1.$id 2>&1; r1=$?
(cd src && rm -rf .test-cache && go test -json -vet=off -count=1 -p 1 -timeout 5m ./... > $w/unit.json 2>/dev/null)
t=$(python3 - $w/unit.json <<'PY'
import json,sys
b=set(x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if not x.startswith('integration'))
ok=set()
for l in open(sys.argv[1]):
    e=json.loads(l)
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
print('missing tests',sorted(b-ok)[:5])
PY
)
echo "$id demo unchanged=$r0 patched=$r1 $t"
if [ "$2" != -q ]; then
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /verif/engine && CGO_ENABLED=0 GOFLAGS=-mod=readonly GOSUMDB=off go build -o $w/symx .)
  (cd $w && timeout 900 $w/symx -check $prop -repo $w/repo -verif $w/verif 2>&1 | grep -v "paths (" | cut -c1-300 | tail -${LINES_SHOWN:-4}; echo "$id check exit ${PIPESTATUS[0]}")
fi
rm -rf "$w"
