#!/usr/bin/env python3
"""plant.py ID PROP FILE OLD NEW [FILE OLD NEW ...] -- NEEDS -- BREAKS
Writes seeded/ID/patch.diff and meta.json from textual replacements in a scratch copy of /repo's files.
An OLD may be given as '@n:text' to select the n-th occurrence (0-based)."""
import sys, os, json, subprocess, tempfile, shutil
a=sys.argv[1:]; i=a.index('--'); j=a.index('--',i+1)
ID,PROP=a[:2]; ed=a[2:i]; needs=' '.join(a[i+1:j]); brk=' '.join(a[j+1:])
out='/verif/seeded/'+ID; os.makedirs(out,exist_ok=True)
d=tempfile.mkdtemp(prefix='plant'); diff=''
files={}
for k in range(0,len(ed),3):
    f,o,n=ed[k:k+3]; t=files.get(f) or open('/repo/'+f).read()
    idx=0
    if o.startswith('@'): idx,o=o[1:].split(':',1); idx=int(idx)
    elif t.count(o)!=1: sys.exit('%s: %d occurrences of %r'%(f,t.count(o),o))
    p=-1
    for _ in range(idx+1):
        p=t.find(o,p+1)
        if p<0: sys.exit('no occurrence')
    files[f]=t[:p]+n+t[p+len(o):]
for f,t in files.items():
    for s,c in (('a',open('/repo/'+f).read()),('b',t)):
        q='%s/%s/%s'%(d,s,f); os.makedirs(os.path.dirname(q),exist_ok=True); open(q,'w').write(c)
r=subprocess.run(['git','diff','--no-index','--no-prefix','a','b'],cwd=d,capture_output=True,text=True).stdout
open(out+'/patch.diff','w').write(r)
shutil.rmtree(d)
json.dump({'property':PROP,'needs':needs,'what_it_breaks':brk},open(out+'/meta.json','w'),indent=1)
c=subprocess.run(['git','-C','/repo','apply','--check',out+'/patch.diff'],capture_output=True,text=True)
print(ID,'ok' if c.returncode==0 else c.stderr)
