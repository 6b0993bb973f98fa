#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: (re)make planted bugs from a spec and confirm each one.

A spec file defines BUGS, a list of dicts: id, property, file, edits [(old,new)],
pkg (directory below /repo), demo (Go test source), common (optional), needs, breaks.
Confirms in /repo's working tree (restored afterwards): patch applies, builds, stable
tests pass, demo passes without and fails with the patch, lines changed are original.
"""
import sys,os,subprocess,json,runpy
spec=runpy.run_path(sys.argv[1]); want=sys.argv[2:]
BASE='df38436'
DEMO='''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GO111MODULE=on GONOSUMDB=* GOSUMDB=off
tmp="$(mktemp -d)"
python3 - "$here" "$repo" "$tmp" "%(pkg)s" <<'PY'
import sys,os,json,glob,shutil
here,repo,tmp,pkg=sys.argv[1:]
d=os.path.join(repo,pkg); rep={}
for f in glob.glob(os.path.join(d,'*_test.go')): rep[f]=''
for f in glob.glob(os.path.join(here,'*_test.go.txt')):
    n=os.path.basename(f)[:-4]
    shutil.copy(f,os.path.join(tmp,n)); rep[os.path.join(d,'zz_demo_'+n)]=os.path.join(tmp,n)
json.dump({'Replace':rep},open(os.path.join(tmp,'overlay.json'),'w'))
w=open(os.path.join(repo,'go.work')).read().replace('./',repo+'/')
ts=os.path.join(repo,'functions/golang/teamshooter')
if ts not in w: w+='\\nuse '+ts+'\\n'
open(os.path.join(tmp,'go.work'),'w').write(w)
if os.path.exists(os.path.join(repo,'go.work.sum')): shutil.copy(os.path.join(repo,'go.work.sum'),tmp)
PY
export GOWORK="$tmp/go.work"
cd "$repo/%(pkg)s" && timeout 250 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run TestDemo .
rc=$?
rm -rf "$tmp"
exit $rc
'''
def run(c,**k): return subprocess.run(c,capture_output=True,text=True,**k)
def restore(): run(['git','-C','/repo','checkout','--','.'])
base=None
for b in spec['BUGS']:
    if want and b['id'] not in want: continue
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    ok=True
    for e in b['edits']:
        f,old,new=e if len(e)==3 else (b['file'],)+tuple(e)
        p='/repo/'+f; s=open(p).read()
        if s.count(old)!=1: print(b['id'],'edit matches',s.count(old),'times:',old[:60]); ok=False; break
        open(p,'w').write(s.replace(old,new))
    if not ok: restore(); continue
    for f in [e[0] if len(e)==3 else b['file'] for e in b['edits']]: run(['gofmt','-w','/repo/'+f])
    diff=run(['git','-C','/repo','diff']).stdout
    open(d+'/patch.diff','w').write(diff)
    # removed lines must be original ones
    import re
    cur=None; orig=[];ours=[]
    for l in diff.split('\n'):
        if l.startswith('--- a/'): cur=l[6:]; blame=run(['git','-C','/repo','blame','-s','HEAD','--',cur]).stdout.split('\n')
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m[1]); continue
        if l.startswith('-') and not l.startswith('---'):
            (orig if blame[n-1].startswith('^'+BASE) else ours).append((cur,n)); n+=1
        elif l.startswith(' '): n+=1
    open(d+'/demo.sh','w').write(DEMO%b); os.chmod(d+'/demo.sh',0o755)
    for f in os.listdir(d):
        if f.endswith('_test.go.txt'): os.remove(d+'/'+f)
    open(d+'/demo_test.go.txt','w').write(b['demo'])
    if b.get('common'): open(d+'/common_test.go.txt','w').write(spec[b['common']])
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    bl=run(['bash','/opt/vp/build.sh']); 
    if bl.returncode: print(b['id'],'DOES NOT BUILD',bl.stderr[-400:]); restore(); continue
    run(['bash','/opt/vp/test.sh','/tmp/pl/t.json'])
    t=json.load(open('/tmp/pl/t.json')); bj=json.load(open('/opt/vp/BASELINE.json'))
    def names(x):
        if isinstance(x,dict):
            for k in ('passed','pass','stable','tests'):
                if k in x: return set(x[k] if isinstance(x[k],list) else x[k].keys())
        return set(x)
    missing=names(bj)-names(t)
    dp=run(['bash',d+'/demo.sh'],cwd='/repo')
    restore()
    dc=run(['bash',d+'/demo.sh'],cwd='/repo')
    good=not missing and dp.returncode!=0 and dc.returncode==0
    print(b['id'],b['property'],'CONFIRMED' if good else 'NOT GOOD','orig lines removed',len(orig),'ours',len(ours),'tests missing',len(missing),'demo patched',dp.returncode,'clean',dc.returncode,flush=True)
    if dc.returncode: print(dc.stdout[-1500:],dc.stderr[-1500:])
    elif not good: print(dp.stdout[-600:],dp.stderr[-600:],list(missing)[:3])
    else:
        fl=[l for l in dp.stdout.split('\n') if 'demo' in l or 'panic' in l][:2]
        print('    ',fl)
