#!/bin/bash
# seedcheck.sh ID [checks]: confirms /verif/seeded/ID in a scratch copy of /repo: the demonstration passes without the
# change and fails with it, the change builds, the stable tests pass. With "checks" also runs the property's check on it.
id=$1; d=/verif/seeded/$id; w=/tmp/seedwork.$id
rm -rf "/tmp/seedwork.$id"; cp -a /repo "$w"
cp -r "$d" "/tmp/seedwork.$id.demo"; rm -f "/tmp/seedwork.$id.demo/patch.diff" "/tmp/seedwork.$id.demo/meta.json"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd "$w"
bash "/tmp/seedwork.$id.demo/demo.sh" >"/tmp/seed/$id.clean.log" 2>&1; a=$?
git apply "$d/patch.diff" || echo "$id: PATCH DOES NOT APPLY"
/usr/local/bin/go1.23 build ./... >"/tmp/seed/$id.build.log" 2>&1; b=$?
bash "/tmp/seedwork.$id.demo/demo.sh" >"/tmp/seed/$id.bug.log" 2>&1; c=$?
r="demo clean=$a build=$b demo bug=$c"
if [ "$2" != notest ]; then
 python3 - "$w" <<'P'
import json,subprocess,os,sys
w=sys.argv[1]
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
got=set()
for pre,env in (('',{}),('bitdecomp:',{'USE_BIT_DECOMPOSITION_RANGE_CHECK':'true'})):
    p=subprocess.run(['/usr/local/bin/go1.23','test','-json','-vet=off','-count=1','-timeout','6m','./...'],cwd=w,env={**os.environ,**env},capture_output=True,text=True)
    for l in p.stdout.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'): got.add(pre+e['Package']+'/'+e['Test'])
m=stable-got
print('stable tests missing:',len(m),sorted(m)[:3])
P
fi
if [ "$2" = checks -o "$3" = checks ]; then
 VERIF_REPO=$w /verif/bin/analyzer -repo "$w" -spec /verif/spec -out /tmp/seed/ev -known /verif/known_findings.txt -guards /verif/analyzer/guards.json -tier quick -seed 1 check $prop >"/tmp/seed/$id.check.log" 2>&1; r="$r check $prop=$?"
fi
echo "$id: $r"
rm -rf "/tmp/seedwork.$id" "/tmp/seedwork.$id.demo"
