"""C20: a generated library is complete.  For each enumerated option set the generator's output and the list of sources the build system
derives from it are analysed for every configured maximum: every source named exists, everything a source refers to is declared where it is
used and defined exactly once among the listed sources, and every quartet up to the recorded maxima has its routine."""
import _path, os, re, json, shlex, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
import build, gen, report
AM='spdfghiklmnoqrtuvwxyzabce'
_sys=None
def system_symbols():
    """what the C library, the mathematics library and the compiler's runtime provide"""
    global _sys
    if _sys is None:
        _sys=set()
        for l in ('libc.so.6','libm.so.6','libgomp.so.1','libgcc_s.so.1','libmvec.so.1'):
            p=build.sh(['gcc','-print-file-name='+l]).strip()
            if os.path.exists(p):
                for x in build.sh(['llvm-nm-18','-D','--defined-only',p]).split('\n'):
                    if x.strip(): _sys.add(x.split()[-1].split('@')[0])
    return _sys
def configure(lib,L,D,vec):
    b='%s/_b_%d_%d'%(lib.path,L,D)
    env=dict(os.environ,CC='clang-18',CXX='clang++-18')
    for v in ('CFLAGS','CXXFLAGS','LDFLAGS'): env.pop(v,None)
    build.sh(['cmake','-G','Unix Makefiles','-S',lib.path,'-B',b,'-DSIMINT_VECTOR='+vec,'-DENABLE_FORTRAN=OFF','-DENABLE_TESTS=OFF','-DSIMINT_MAXAM=%d'%L,'-DSIMINT_MAXDER=%d'%D,'-DCMAKE_BUILD_TYPE=Release','-DCMAKE_POLICY_VERSION_MINIMUM=3.5','-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'],env=env)
    out={}
    for e in json.load(open(b+'/compile_commands.json')):
        f=os.path.normpath(os.path.join(e['directory'],e['file']))
        if not f.startswith(lib.path+'/simint/'): continue
        a=shlex.split(e['command']); k=[x for x in a[1:] if x.startswith(('-I','-D','-std','-m'))]
        out[f]=k
    return b,out
class Sym: pass
def symbols(f,flags,b,key=None):
    s=Sym(); s.err=''; s.defd=set(); s.undef=set(); s.impl=[]
    o='%s/%s.bc'%(b,hashlib.sha1(f.encode()).hexdigest()[:12])
    import subprocess
    p=subprocess.run(['clang-18','-O0','-emit-llvm','-c','-w','-Werror=implicit-function-declaration','-Werror=int-conversion','-Werror=incompatible-pointer-types']+flags+[f,'-o',o],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    if p.returncode:
        s.err=next((l for l in p.stderr.split('\n') if 'error:' in l),p.stderr[:300]); s.err=re.sub(r'/tmp/\S*?/(simint/)',r'\1',s.err)
        return s
    for l in build.sh(['llvm-nm-18',o]).split('\n'):
        w=l.split()
        if len(w)<2: continue
        t,n=w[-2],w[-1]
        if t=='U': s.undef.add(n)
        elif t in 'TDBRGSC': s.defd.add(n)
    os.unlink(o)
    return s
def qn(q): return '_'.join(AM[x] for x in q)
def quartets(L):
    import itertools
    return itertools.product(range(L+1),repeat=4)
def oname(o): return ' '.join('-%s %s'%(k,v) for k,v in o.items())
def one(c,k,opts,levels=None):
    nm=oname(opts); loc='create.py %s'%nm
    lib=gen.generate('c20_%d'%k,opts,jobs=2,check=False)
    res=[]  # obligations (ok,key,msg,loc,rule)
    ob=lambda ok,key,msg,rule,l=loc: res.append((bool(ok),key,msg,l,rule))
    if lib.rc!=0: return [],[],'rejected'
    t=open(lib.path+'/cmake/MaxAvailable.cmake').read() if os.path.exists(lib.path+'/cmake/MaxAvailable.cmake') else ''
    mx={m.group(1):int(m.group(2)) for m in re.finditer(r'set\s*\(\s*SIMINT_(\w+)_AVAILABLE\s+"?(-?\d+)"?\s*\)',t)}
    ob('MAXAM' in mx and 'MAXDER' in mx,'maxima','the recorded maxima are missing (%s)'%nm,'recorded maxima')
    if res[-1][0] is False: return res,[],''
    ob(mx['MAXAM']==opts['l'] and mx['MAXDER']==opts.get('d',0),'maxima:value','recorded maxima %s, requested angular momentum %d and derivative order %d'%(mx,opts['l'],opts.get('d',0)),'recorded maxima')
    libs=system_symbols(); info=[]
    todo=[(L,D) for D in range(mx['MAXDER']+1) for L in range(mx['MAXAM']+1)]
    if levels: todo=[x for x in todo if x in levels or x==(mx['MAXAM'],mx['MAXDER'])]
    cache={}
    for L,D in todo:
        tag='%s; built for angular momentum %d, derivative order %d'%(nm,L,D); kk='%d:%d'%(L,D)
        try: b,files=configure(lib,L,D,'scalar')
        except build.BuildError as e:
            m=re.search(r'CMake Error[^\n]*\n[^\n]*\n?[^\n]*',str(e)); txt=re.sub(r'\s+',' ',m.group(0) if m else str(e)[-300:])
            txt=re.sub(r'/tmp/\S*?/(simint/|ostei/)',r'\1',txt)
            ob(False,'configure:%s'%('missing' if 'Cannot find source' in str(e) else 'failed'),'the list of sources cannot be built (%s): %s'%(tag,txt[:300]),'configurations'); continue
        ob(True,'configure','','configurations')
        ob(len(files)>=10,'files','hardly any sources are listed (%s)'%tag,'configurations')
        def sy(f):
            # generated sources depend on the maxima only through the derivative order (structure layout)
            key=(f,D) if '/gen/' in f else (f,D,L)
            if key not in cache: cache[key]=symbols(f,files[f],b)
            return f,cache[key]
        S=dict(sy(f) for f in sorted(files))
        defs={}
        for f,s in S.items():
            r=os.path.relpath(f,lib.path); cls=re.sub(r'_[spdfghik](_[spdfghik])*\.c$','_*.c',r)
            ob(not s.err,'compile:%s'%cls,'%s does not compile (%s): %s'%(r,tag,s.err[:300]),'listed sources')
            for d in s.defd: defs.setdefault(d,[]).append(r)
        for d,fs in sorted(defs.items()):
            ob(len(fs)==1,'twice:%s'%re.sub(r'_[spdfghik](_[spdfghik])*$','_*',d),'%s is defined by %s (%s)'%(d,' and '.join(fs),tag),'definitions')
        for f,s in sorted(S.items()):
            r=os.path.relpath(f,lib.path)
            for u in sorted(s.undef):
                if u.startswith('llvm.') or u in('_GLOBAL_OFFSET_TABLE_',): continue
                ok=u in defs or u in libs
                ob(ok,'undefined:%s'%re.sub(r'_[spdfghik](_[spdfghik])*$','_*',u),'%s refers to %s, which no listed source defines (%s)'%(r,u,tag),'references')
        for q in quartets(L):
            for d in range(D+1):
                n=('ostei_' if d==0 else 'ostei_deriv%d_'%d)+qn(q)
                ob(n in defs,'target:d%d'%d,'no listed source defines the routine %s (%s)'%(n,tag),'quartets')
        info.append('%s: %d sources, %d definitions'%(tag,len(files),len(defs)))
    import shutil; shutil.rmtree(lib.path,ignore_errors=True)
    return res,info,''
QUICK=[dict(l=1,p=1,ve=0,vg=0,he=0,hg=0,d=1),dict(l=1,p=1,ve=0,vg=20,he=0,hg=20,d=1),dict(l=1,p=0,ve=0,vg=20,he=0,hg=20,d=1),dict(l=1,p=2,ve=20,vg=20,he=20,hg=20,d=1),
       dict(l=1,p=1,ve=2,vg=20,he=2,hg=20,d=1),dict(l=1,p=2,ve=1,vg=3,he=1,hg=2,d=1),dict(l=1,p=0,ve=0,vg=4,he=0,hg=3,d=0),dict(l=1,p=1,ve=0,vg=5,he=20,hg=20,d=0),dict(l=1,p=9,ve=3,vg=4,he=0,hg=1,d=1),
       dict(l=0,p=0,ve=0,vg=0,he=0,hg=0,d=0),dict(l=0,p=1,ve=0,vg=20,he=0,hg=20,d=1),dict(l=2,p=2,ve=0,vg=6,he=0,hg=20,d=0),dict(l=2,p=1,ve=0,vg=20,he=2,hg=4,d=0),dict(l=0,p=0,ve=0,vg=0,he=0,hg=0,d=2)]
def run(c):
    c.assume=['the symbols of the C, mathematics and compiler runtime libraries of this platform are available to a program linking the library','scalar back end; option sets enumerated below (angular momentum at most 2 quick, 3 thorough)']
    sets=list(QUICK)
    if c.thorough:
        for ve in (0,1,2,3,20):
            for vg in (0,2,3,4,5,20):
                for p in (0,1,2): sets.append(dict(l=1,p=p,ve=ve,vg=vg,he=ve,hg=vg,d=1))
        for he in (0,1,2,20):
            for hg in (0,1,2,3,20): sets.append(dict(l=1,p=1,ve=20,vg=20,he=he,hg=hg,d=1))
        for ve,vg in ((0,20),(0,4),(2,6),(4,20),(0,8)):
            for p in (0,1,2,3): sets.append(dict(l=2,p=p,ve=ve,vg=vg,he=ve,hg=vg,d=1))
        sets+=[dict(l=3,p=3,ve=0,vg=20,he=0,hg=20,d=0),dict(l=3,p=2,ve=4,vg=7,he=2,hg=5,d=0)]
        u=[]
        for s in sets:
            if s not in u: u.append(s)
        sets=u
    gen.generator(); system_symbols()
    with ThreadPoolExecutor(gen.NP) as ex: out=list(ex.map(lambda a:one(c,a[0],a[1]),sorted(enumerate(sets),key=lambda a:-a[1]['l'])))
    for (k,o),(res,info,why) in zip(sorted(enumerate(sets),key=lambda a:-a[1]['l']),out):
        if why=='rejected': c.count('option sets rejected'); c.sample('rejected: '+oname(o)); continue
        c.count('option sets'); c.units.append(oname(o))
        for ok,key,msg,loc,rule in res: c.ob(ok,key,msg,loc,rule)
        for i in info[-1:]: c.sample(i)
    for r,n in (('option sets',10),('configurations',30),('listed sources',800),('references',4000),('quartets',400)): c.atleast(r,n)
if __name__=='__main__': report.main('C20','proof','For every enumerated option set and every configured maximum, the sources the build system lists are compiled to IR and their symbol tables are resolved against each other: references, duplicate definitions, declarations, quartet routines and recorded maxima.',run)
