#!/usr/bin/env python3
"""seed.py ID PROP 'needs' 'breaks' : takes the current uncommitted /repo diff as the patch; /tmp/demo.cpp or /tmp/demo.sh as demo; verifies; stores"""
import sys,os,subprocess,json,shutil
ID,PROP,NEEDS,BREAKS=sys.argv[1:5]
D='/verif/seeded/'+ID
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
os.makedirs(D,exist_ok=True)
d=subprocess.run('git -C /repo diff',shell=True,capture_output=True).stdout
assert d.strip(),'no diff'
open(D+'/patch.diff','wb').write(d)
if os.path.exists('/tmp/demo.sh'): shutil.move('/tmp/demo.sh',D+'/demo.sh')
else:
    std=os.environ.get('STD','17'); cc=os.environ.get('CC','g++')
    open(D+'/demo.sh','w').write('''#!/bin/bash
# compiles and runs the demonstration against the Sprout headers of the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
%s -std=c++%s %s -I"$PWD" "$d/demo.cpp" -o "$t/demo" || exit 1
"$t/demo"
'''%(cc,std,os.environ.get('FLAGS','-w')))
for f in os.listdir('/tmp'):
    if f=='demo.cpp' or f.startswith('demo_'): shutil.move('/tmp/'+f,D+'/'+f)
json.dump({'property':PROP,'needs':NEEDS,'what_it_breaks':BREAKS},open(D+'/meta.json','w'),indent=1)
ok=True
r=sh('bash %s/demo.sh'%D,cwd='/repo'); print('demo patched rc',r.returncode,r.stderr[-200:] if r.returncode else '')
if r.returncode==0: ok=False; print('!! demo passes with patch')
if '--nobuild' not in sys.argv:
    b=sh('bash /opt/vp/build.sh'); 
    if b.returncode: ok=False; print('!! build fails',(b.stdout+b.stderr)[-800:])
    else:
        sh('bash /opt/vp/test.sh /tmp/seedout.json'); o=json.load(open('/tmp/seedout.json')); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss=st-set(o['passed'])
        if miss: ok=False; print('!! tests fail',sorted(miss)[:5])
chk=[l for l in [PROP.lower()] ]
for c in chk:
    p='/verif/checks/%s.py'%c
    if os.path.exists(p):
        r2=sh('python3 '+p,cwd='/verif'); print(c,'rc',r2.returncode,'\n'.join(r2.stdout.splitlines()[-4:])[:900], r2.stderr[-300:])
sh('git -C /repo checkout -- .')
r=sh('bash %s/demo.sh'%D,cwd='/repo'); print('demo clean rc',r.returncode,r.stderr[-400:])
if r.returncode: ok=False
print('OK' if ok else 'BAD',ID)
if not ok and '--keep' not in sys.argv:
    shutil.rmtree('/tmp/badseed',ignore_errors=True); shutil.move(D,'/tmp/badseed')
