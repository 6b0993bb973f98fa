#!/usr/bin/env python3
"""seedtable.py RESULTS...: fill the table of planted bugs in DESIGN.md (section 7)
from seeded/*/meta.json and the lines that tools/seedrun.sh printed."""
import sys,json,glob,os,re
res={}
for f in sys.argv[1:]:
    for l in open(f):
        m=re.match(r'(\S+) (C\d\d) exit (\d+) (\d+)s',l)
        if m: res.setdefault(m[1],{})[m[2]]=(int(m[3]),int(m[4]))
rows=['| planted bug | breaks | what it needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d)); p=m['property']
    r=res.get(i,{})
    got=', '.join('%s (%d s)'%(c,t) for c,(rc,t) in sorted(r.items()) if rc==1) or ('not caught' if r else 'not run')
    rows.append('| %s | %s | %s | %s |'%(i,p,m['needs'].replace('|','/').replace('\n',' '),got))
s=open('/verif/DESIGN.md').read()
a=s.index('<!-- SEEDTABLE -->')+len('<!-- SEEDTABLE -->'); b=s.index('<!-- /SEEDTABLE -->')
open('/verif/DESIGN.md','w').write(s[:a]+'\n'+'\n'.join(rows)+'\n'+s[b:])
