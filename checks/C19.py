"""C19: Fortran interfaces match the C library.  The Fortran module is compiled (never run) with the flags the build system gives it; the
compiler's own description of its BIND(C) entities and the intermediate code of its wrappers are compared with the C declarations."""
import _path, os, re, json, shlex, shutil
import build, report, llir, effects
S=build.REPO+'/skel'
MAXINT={32:2**31-1,64:2**63-1,16:2**15-1,8:127}

# ---------------------------------------------------------------- build configuration
def configure(c,maxder,cc,gen='Unix Makefiles'):
    """compile command that cmake derives for simint.f90 (scratch copy of the library tree with an empty list of generated files)"""
    d=build.tmp()+'/f_%d_%s'%(maxder,cc); shutil.copytree(S,d)
    os.makedirs(d+'/simint/ostei/gen')
    for k in (0,1): open(d+'/simint/ostei/gen/filelist_d%d_0'%k,'w').write('')
    open(d+'/cmake/MaxAvailable.cmake','w').write('set(SIMINT_MAXDER_AVAILABLE 1)\nset(SIMINT_MAXAM_AVAILABLE 0)\n')
    t='#pragma once\n#include "simint/vectorization/vectorization.h"\n#define SIMINT_OSTEI_MAXAM @SIMINT_MAXAM@\n#define SIMINT_OSTEI_MAXDER @SIMINT_MAXDER@\n#define SIMINT_OSTEI_DERIV1_MAXAM (SIMINT_OSTEI_MAXDER > 0 ? @SIMINT_MAXAM@ : -1)\nstatic inline size_t simint_ostei_worksize(int d,int m){return 0;}\nstatic inline size_t simint_ostei_workmem(int d,int m){return 0;}\n'
    open(d+'/simint/ostei/ostei_config.h.in','w').write(t)
    b=d+'_b'
    env=dict(os.environ,CC=cc,CXX='g++' if cc=='gcc' else 'clang++-18',FC='gfortran')
    for v in ('CFLAGS','CXXFLAGS','FFLAGS','LDFLAGS'): env.pop(v,None)
    build.sh(['cmake','-G',gen,'-S',d,'-B',b,'-DSIMINT_VECTOR=scalar','-DENABLE_FORTRAN=ON','-DENABLE_TESTS=OFF','-DSIMINT_MAXDER=%d'%maxder,'-DCMAKE_BUILD_TYPE=Release','-DCMAKE_POLICY_VERSION_MINIMUM=3.5','-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'],env=env)
    cmds=[e for e in json.load(open(b+'/compile_commands.json')) if e['file'].endswith(('.f90','.F90','.f','.F')) and not os.path.relpath(e['file'],d).startswith(('examples','test'))]
    c.need(len(cmds)>=1,'the build system does not compile a Fortran module with ENABLE_FORTRAN')
    out=[]
    for e in cmds:
        a=shlex.split(e['command']); keep=[]; i=1
        while i<len(a):
            if a[i] in('-o',): i+=2; continue
            if a[i]=='-c': i+=1; continue
            if a[i]==e['file']: i+=1; continue
            if a[i].startswith('-J') : i+=1; continue
            keep.append(a[i]); i+=1
        if (e['file'],keep) not in out: out.append((e['file'],keep))
    return d,b,out

# ---------------------------------------------------------------- C side (clang's syntax tree)
def ckind(q):
    """machine type class of a C type: ('int',bits,signed) / ('real',bits) / ('ptr',pointee text,const) / ('void',)"""
    q=re.sub(r'\b(restrict|__restrict|volatile|register)\b','',q).strip(); q=re.sub(r'\s+',' ',q)
    m=re.match(r'^(.*?)\s*\*\s*(const)?$',q)
    if m:
        p=m.group(1).strip(); cst=bool(re.search(r'\bconst\b',p)); p=re.sub(r'\bconst\b','',p); p=re.sub(r'\s+',' ',p).strip()
        return('ptr',p.replace('struct ',''),cst)
    q=re.sub(r'\bconst\b','',q).strip()
    t={'int':('int',32,1),'unsigned int':('int',32,0),'long':('int',64,1),'long long':('int',64,1),'unsigned long':('int',64,0),'size_t':('int',64,0),'ptrdiff_t':('int',64,1),'short':('int',16,1),'char':('int',8,1),'signed char':('int',8,1),'int64_t':('int',64,1),'int32_t':('int',32,1),
       'double':('real',64),'float':('real',32),'void':('void',),'_Bool':('int',8,0)}
    return t.get(q,('other',q))
def ast(path,incs):
    """file-level FunctionDecl and RecordDecl facts of one translation unit"""
    t=build.sh(['clang-18','-std=gnu11','-fsyntax-only','-Xclang','-ast-dump=json']+['-I'+i for i in incs]+[path])
    fn={}; rec={}
    for n in json.loads(t)['inner']:
        if n['kind']=='FunctionDecl':
            ps=[x for x in n.get('inner',[]) if x['kind']=='ParmVarDecl']
            ret=n['type'].get('desugaredQualType',n['type']['qualType']).split('(')[0].strip()
            fn.setdefault(n['name'],dict(ret=n['type']['qualType'].split('(')[0].strip(),par=[(x.get('name',''),x['type'].get('desugaredQualType',x['type']['qualType']),x['type']['qualType']) for x in ps],
                                         defined=False,inline=n.get('inline',False)))
            if any(x['kind']=='CompoundStmt' for x in n.get('inner',[])): fn[n['name']]['defined']=True
        elif n['kind']=='RecordDecl' and n.get('completeDefinition'):
            rec[n.get('name','')]=[(x['name'],x['type'].get('desugaredQualType',x['type']['qualType'])) for x in n['inner'] if x['kind']=='FieldDecl']
        elif n['kind']=='TypedefDecl' and n['name'].startswith('c_'): pass
    return fn,rec
def layouts(path,incs):
    t=build.sh(['clang-18','-std=gnu11','-fsyntax-only','-Xclang','-fdump-record-layouts-complete','-Xclang','-fdump-record-layouts-simple']+['-I'+i for i in incs]+[path])
    out={}
    for b in t.split('*** Dumping AST Record Layout')[1:]:
        n=re.search(r'Type: (?:struct )?(\w+)',b); 
        if not n: continue
        sz=re.search(r'\bSize:(\d+)',b); fo=re.search(r'FieldOffsets: \[([\d, ]*)\]',b)
        out[n.group(1)]=(int(sz.group(1)),[int(x) for x in fo.group(1).split(',') if x.strip()])
    return out

# ---------------------------------------------------------------- Fortran side
def prototypes(c,f,flags,work):
    t=build.sh(['gfortran']+flags+['-J',work,'-fc-prototypes','-fsyntax-only',f])
    return t
def gimple(f,flags,work):
    os.makedirs(work,exist_ok=True)
    fl=[x for x in flags if not re.match(r'^-O',x)]
    build.sh(['gfortran']+fl+['-J',work,'-O2','-fno-ipa-cp','-fno-ipa-sra','-fno-ipa-icf','-c',f,'-o',work+'/x.o','-fdump-tree-optimized-asmname','-fdump-fortran-original'],cwd=work)
    # dump files are named after the object or the source
    d=[x for x in os.listdir(work) if x.endswith('.optimized')]
    return open(work+'/'+d[0]).read()
def symtab(f,flags,work):
    """dummy arguments: (procedure, argument) -> attribute text"""
    t=build.sh(['gfortran']+flags+['-J',work,'-fdump-fortran-original','-fsyntax-only',f]); out={}; proc=None; sym=None
    for l in t.split('\n'):
        m=re.match(r"\s*procedure name = (\S+)",l)
        if m: proc=m.group(1).lower()
        m=re.search(r"symtree: '([^']+)'",l)
        if m: sym=m.group(1).lower()
        m=re.match(r"\s*attributes: \((.*)\)\s*$",l)
        if m and sym and 'DUMMY' in m.group(1): out.setdefault(proc,{})[sym]=m.group(1)
    return out
def parse_gimple(t):
    """module procedures: name -> (return type, [(param name, type)], [statements])"""
    out={}
    for b in re.split(r'\n(?=;; Function )',t):
        h=re.match(r';; Function (\S+) \((\S+?),',b.strip())
        if not h: continue
        m=re.search(r'^(?!;;|__attribute__)([^\n;{}]*?)\b(\w+) \(([^\n]*)\)\n\{(.*)^\}',b,re.S|re.M)
        if not m: continue
        pars=[]; depth=0; cur=''
        for ch in m.group(3):
            if ch in '([': depth+=1
            if ch in ')]': depth-=1
            if ch==',' and depth==0: pars.append(cur); cur=''
            else: cur+=ch
        if cur.strip() and cur.strip()!='void': pars.append(cur)
        ps=[]
        for p in pars:
            k=re.match(r'^\s*(.*?)\s*(\w+)\s*$',p); ps.append((k.group(2),k.group(1)))
        body=[l.strip() for l in m.group(4).split('\n')]
        ty={}
        for l in body:
            k=re.match(r'^(.*?)\s+(_\d+|\w+(?:\.\d+)?);$',l)
            if k and '=' not in l and '(' not in k.group(2) and not l.startswith(('return','goto')): ty[k.group(2)]=k.group(1)
        out[h.group(1)]=(m.group(1).strip(),ps,body,ty,h.group(2))
    return out
def fkind(t):
    t=t.strip()
    m=re.match(r'integer\(kind=(\d+)\)',t)
    if m: return('int',int(m.group(1))*8,1)
    m=re.match(r'real\(kind=(\d+)\)',t)
    if m: return('real',int(m.group(1))*8)
    if t in('long','signed long'): return('int',64,1)
    if t=='int': return('int',32,1)
    if t=='double': return('real',64)
    if t=='float': return('real',32)
    return('other',t)
def felem(t):
    """what a dummy passed by reference points to"""
    t=re.sub(r'\brestrict\b','',t).strip(); t=re.sub(r'\s+',' ',t)
    m=re.match(r'^(.*?)\s*[&*]$',t)
    if not m: return None
    e=m.group(1).strip(); e=re.sub(r'\[[^\]]*\]$','',e).strip()
    if e.startswith('struct array'): return('descriptor',e)
    m=re.match(r'struct (\w+)',e)
    if m: return('struct',m.group(1).lower())
    return fkind(e)

class Wrap:
    """value flow of one wrapper: every SSA name as ('arg',i) / ('load',i,type) / ('conv',v,type) / ('ret',fn,args) / ('const',text)"""
    def __init__(s,name,ret,ps,body,ty):
        s.ret=ret; s.ps=ps; s.ty=ty; s.val={}; s.calls=[]; s.rv=None; s.bad=[]; s.mem={}
        s.idx={p:i for i,(p,_) in enumerate(ps)}
        for l in body: s.stmt(l)
    def v(s,x):
        x=x.strip()
        m=re.match(r'^(\w+?)_\d+\(D\)$',x)
        if m and m.group(1) in s.idx: return('arg',s.idx[m.group(1)])
        if x in s.idx: return('arg',s.idx[x])
        if x in s.val: return s.val[x]
        m=re.match(r'^&\(?\*(\w+?)_\d+\(D\)\)?\s*(\[0\])?$',x)
        if m and m.group(1) in s.idx: return('arg',s.idx[m.group(1)])
        m=re.match(r'^&\(\*(\w+?)_\d+\(D\)\)\[0\].*',x)
        if m and m.group(1) in s.idx: return('expr',x)
        m=re.match(r'^&(\w+(?:\.\d+)?)$',x)
        if m: return('local',m.group(1))
        m=re.match(r'^\*(\w+?)_\d+\(D\)$',x)
        if m and m.group(1) in s.idx:
            return('load',s.idx[m.group(1)],felem(s.ps[s.idx[m.group(1)]][1]))
        m=re.match(r'^MEM\s*\[\(.*\)(\w+?)_\d+\(D\)\]$',x)
        if m and m.group(1) in s.idx: return('load',s.idx[m.group(1)],felem(s.ps[s.idx[m.group(1)]][1]))
        if re.match(r'^-?[\d.e+]+B?$',x): return('const',x)
        if x in s.mem: return s.mem[x]
        return('expr',x)
    def call(s,txt):
        m=re.match(r'^(\w+)(?:\.\w+\.\d+)? \((.*)\)$',txt)
        if not m: return None
        a=[]; d=0; cur=''
        for ch in m.group(2):
            if ch in '([': d+=1
            if ch in ')]': d-=1
            if ch==',' and d==0: a.append(cur); cur=''
            else: cur+=ch
        if cur.strip(): a.append(cur)
        return m.group(1),[s.v(x) for x in a]
    def stmt(s,l):
        if not l or l.startswith('<bb') or l.startswith('#') or l.startswith('goto') or 'CLOBBER' in l: return
        l=re.sub(r'\s*\[tail call\]','',l)
        if not l.endswith(';'): return
        l=l[:-1]
        if l=='return': return
        m=re.match(r'^return (.*)$',l)
        if m: s.rv=s.v(m.group(1)); return
        m=re.match(r'^([\w.$*()\[\]]+) = (.*)$',l)
        if m:
            d,e=m.group(1),m.group(2).strip()
            if re.match(r'^\w+ \(',e) and not e.startswith('('):
                k=s.call(e)
                if k: s.calls.append(k); s.val[d]=('ret',len(s.calls)-1); return
            k=re.match(r'^\(([^()]*(?:\([^()]*\))?[^()]*)\) ?(.+)$',e)
            if k: s.val[d]=('conv',s.v(k.group(2)),fkind(k.group(1))); return
            s.val[d]=s.v(e); 
            if re.match(r'^[a-zA-Z]\w*(\.\d+)?$',d) : s.mem[d]=s.val[d]
            return
        k=s.call(l)
        if k: s.calls.append(k)
def strip(v,want):
    """follow conversions that lose no value; returns (root, narrowest types met)"""
    tys=[]
    while v[0]=='conv': tys.append(v[2]); v=v[1]
    return v,tys

def check_config(c,maxder,cc):
    d,b,cmds=configure(c,maxder,cc)
    inc=[b+'/stage',d]
    hdr=b+'/all.c'
    heads=sorted(set(re.findall(r'simint/[\w/]+\.h',open(S+'/simint/simint.h').read())))+['simint/shell/shell.h','simint/shell/shell_screen.h','simint/simint_init.h','simint/simint_eri.h','simint/simint_oneelectron.h']
    open(hdr,'w').write(''.join('#include "%s"\n'%h for h in dict.fromkeys(heads) if os.path.exists(S+'/'+h) or 'ostei_config' in h))
    cfn,crec=ast(hdr,inc); clay=layouts(hdr,inc)
    tag='derivative order %d, %s'%(maxder,cc)
    # definitions in the library
    defs={}
    for root,_,fs in os.walk(d+'/simint'):
        for f in fs:
            if f.endswith('.c') and '/vectorization' not in root and '/gen' not in root:
                ir=ATTR(root+'/'+f,inc)
                for n,a in ir.items(): defs.setdefault(n,(a,os.path.relpath(root+'/'+f,d)))
    for f,flags in cmds:
        rel=os.path.relpath(f,d); loc='skel/'+rel
        flags=[x for x in flags if not x.startswith('-J')]
        w=b+'/fw'; os.makedirs(w,exist_ok=True)
        proto=prototypes(c,f,flags,w)
        pc=b+'/proto.c'
        body=proto
        # rename functions so that the file can stand beside the C headers
        open(pc,'w').write(re.sub(r'\bsimint_(\w+) \(',r'simint_\1 (',body))
        ffn,frec=ast(pc,[]); flay=layouts(pc,[])
        ft={n:frec[n] for n in frec if n}
        c.count('fortran types',len(ft))
        for n,fl in sorted(ft.items()):
            cn=re.sub(r'^c_','',n)
            cand=[k for k in crec if k.lower()==cn.lower()]
            c.ob(len(cand)==1,'type:%s'%n,'Fortran type %s has no C structure of the same name (%s)'%(n,tag),loc,'types bound')
            if not cand: continue
            C=crec[cand[0]]
            c.ob(len(C)==len(fl),'type:%s:count'%n,'%s has %d components in Fortran, %d members in C (%s)'%(n,len(fl),len(C),tag),loc,'member counts')
            fo=flay.get(n); co=clay.get(cand[0]); c.need(fo and co,'record layout of %s not found'%n)
            c.ob(fo[0]==co[0],'type:%s:size'%n,'%s occupies %d bits in Fortran, %d in C (%s)'%(n,fo[0],co[0],tag),loc,'sizes')
            for i,(fname,ftype) in enumerate(fl):
                k='type:%s:%s'%(n,fname)
                j=[x for x in range(len(C)) if C[x][0].lower()==fname.lower()]
                if not c.ob(len(j)==1,k+':name','component %s%%%s does not exist in struct %s (%s)'%(n,fname,cand[0],tag),loc,'members by name'): continue
                j=j[0]
                c.ob(fo[1][i]==co[1][j],k+':offset','component %s%%%s lies at byte %d in Fortran and %d in C (%s)'%(n,fname,fo[1][i]//8,co[1][j]//8,tag),loc,'member offsets')
                a=ckind(ftype); e=ckind(C[j][1])
                same=a[0]==e[0] and (a[0]=='ptr' or a[1]==e[1])
                c.ob(same,k+':type','component %s%%%s is %s in Fortran and %s in C (%s)'%(n,fname,ftype,C[j][1],tag),loc,'member types')
        # bound procedures
        nb=0
        for n,p in sorted(ffn.items()):
            if not re.match(r'^simint_',n): 
                if n not in cfn: continue
            nb+=1
            if not c.ob(n in cfn,'proc:%s'%n,'the module binds %s, which no public header declares (%s)'%(n,tag),loc,'procedures bound'): continue
            c.ob(n in defs,'proc:%s:def'%n,'the module binds %s, which the library does not define'%n,loc,'procedures defined')
            q=cfn[n]
            c.ob(len(p['par'])==len(q['par']),'proc:%s:arity'%n,'%s is bound with %d arguments, C has %d (%s)'%(n,len(p['par']),len(q['par']),tag),loc,'argument counts')
            for i,(x,y) in enumerate(zip(p['par'],q['par'])):
                a=ckind(x[1]); e=ckind(y[1])
                ok=a[0]==e[0] and (a[0]=='ptr' or a[1]==e[1])
                if a[0]=='ptr' and a[1] not in('void',e[1]): ok=False
                c.ob(ok,'proc:%s:arg%d'%(n,i+1),'argument %d of %s is %s (%s) in the Fortran interface and %s in C (%s)'%(i+1,n,x[2],x[0],y[2],tag),loc,'argument types')
            a=ckind(p['ret']); e=ckind(q['ret'])
            c.ob(a[0]==e[0] and a[1:2]==e[1:2],'proc:%s:result'%n,'the result of %s is %s in the Fortran interface and %s in C (%s)'%(n,p['ret'],q['ret'],tag),loc,'result types')
        c.count('bound procedures',nb)
        # wrappers
        g=parse_gimple(gimple(f,flags,w+'/g%d%s'%(maxder,cc))); attrs=symtab(f,flags,w)
        nw=0
        for n,(ret,ps,bd,ty,mang) in sorted(g.items()):
            if not n.startswith('simint_'): continue
            if n not in cfn: continue
            nw+=1; q=cfn[n]; W=Wrap(n,ret,ps,bd,ty); k='wrap:%s'%n
            calls=[x for x in W.calls if x[0] in cfn]
            if not c.ob(len(calls)==1 and calls[0][0]==n,k+':target','module procedure %s must call the C function of that name exactly once, found %s'%(n,[x[0] for x in W.calls]),loc,'wrapper targets'): continue
            args=calls[0][1]
            c.ob(len(ps)==len(q['par']),k+':arity','module procedure %s takes %d arguments, the C function %d'%(n,len(ps),len(q['par'])),loc,'wrapper argument counts')
            for i,a in enumerate(args):
                if i>=len(q['par']): break
                e=ckind(q['par'][i][1]); r,tys=strip(a,e); kk=k+':arg%d'%(i+1); cn=q['par'][i][0]
                if e[0]=='ptr':
                    ok=r[0]=='arg' and r[1]==i
                    c.ob(ok,kk,'module procedure %s passes %s as argument %d (%s) of the C function instead of its own argument %d'%(n,desc(r,ps),i+1,cn,i+1),loc,'wrapper arguments')
                    if ok:
                        el=felem(ps[i][1])
                        good=el is not None and ((el[0]=='struct' and re.sub('^c_','',el[1])==e[1].lower()) or (el[0] in('real','int') and el[:2]==ckind(e[1])[:2]))
                        c.ob(good,kk+':elem','argument %d of module procedure %s is %s, the C function expects %s'%(i+1,n,ps[i][1],q['par'][i][2]),loc,'wrapper argument element types')
                        at=attrs.get(n,{}).get(ps[i][0].lower(),'')
                        da=defs.get(n,({},''))[0].get(i,set())
                        words=set(re.split(r'[\s(),]+',at))
                        if 'OUT' in words: c.ob('writeonly' in da,kk+':intent','dummy argument %s of %s is intent(out), but the C function uses its previous contents'%(ps[i][0],n),loc,'intents')
                        elif 'IN' in words: c.ob(e[2] or 'readonly' in da or 'readnone' in da or unmodified(d,inc,n,i,len(q['par'])),kk+':intent','dummy argument %s of %s is intent(in), but the C function may modify it'%(ps[i][0],n),loc,'intents')
                        else: c.ob(True,kk+':intent','','','intents')
                else:
                    src=None
                    if r[0]=='load': src=r[1]; tys=tys+[r[2]]
                    elif r[0]=='arg': src=r[1]; tys=tys+[fkind(re.sub(r'\bconst\b','',ps[r[1]][1]).strip())]
                    c.ob(src==i,kk,'module procedure %s passes %s as argument %d (%s) of the C function instead of its own argument %d'%(n,desc(r,ps),i+1,cn,i+1),loc,'wrapper arguments')
                    if src==i:
                        bad=[t for t in tys if t and (t[0]!=e[0] or t[1]<e[1])]
                        c.ob(not bad,kk+':type','argument %d of module procedure %s passes through %s on its way to %s'%(i+1,n,bad,q['par'][i][2]),loc,'wrapper scalar types')
            e=ckind(q['ret'])
            if e[0]!='void':
                rv=W.rv
                if not c.ob(rv is not None,k+':result','module procedure %s does not return the result of the C function'%n,loc,'wrapper results'): continue
                r,tys=strip(rv,e)
                c.ob(r[0]=='ret' and W.calls[r[1]][0]==n,k+':result','module procedure %s returns %s instead of the result of the C function'%(n,desc(r,ps)),loc,'wrapper results')
                tys=tys+[fkind(ret)]
                for t in tys:
                    if t[0]=='other': continue
                    if t[0]!=e[0]: c.violation(k+':resulttype','the result of module procedure %s passes through %s'%(n,t),loc)
                    elif t[0]=='int':
                        mx=RESULT_MAX.get(n,MAXINT[min(e[1],32)])
                        c.ob(MAXINT.get(t[1],0)>=mx,k+':resulttype','the result of module procedure %s passes through a %d-bit integer, but the C function can return %d'%(n,t[1],mx),loc,'wrapper result ranges')
        c.count('wrappers',nw); c.count('configurations')
        c.sample('%s: %d bound procedures, %d types, %d wrappers'%(tag,nb,len(ft),nw))
def desc(r,ps):
    if r[0] in('arg','load') : return 'argument %d (%s)'%(r[1]+1,ps[r[1]][0])
    return ' '.join(str(x) for x in r)
_mods={}
def unmodified(d,inc,n,i,np_):
    """effect analysis: no store reachable from the C function can modify what argument i points to"""
    if d not in _mods:
        ms=[]
        for root,_,fs in os.walk(d+'/simint'):
            for f in fs:
                p=root+'/'+f
                if f.endswith('.c') and not re.search(r'gen/\w+_generated\.h',open(p).read()): ms.append(llir.parse_module(build.ir_opt(p,tuple(inc)),p))
        _mods[d]=ms
    R=effects.run(_mods[d],[(n,{k:'p%d'%k for k in range(np_)})],{'p%d'%k for k in range(np_) if k!=i})
    return not any(w[1]=='p%d'%i for w in R.writes)
def ATTR(src,inc):
    """function definitions in one C file with the memory attributes LLVM infers for their parameters"""
    if re.search(r'gen/\w+_generated\.h',open(src).read()): return {}   # dispatch tables: they need generated code and define nothing the module binds
    t=build.sh(['clang-18','-std=gnu11','-D_GNU_SOURCE','-w','-O2','-S','-emit-llvm','-fno-discard-value-names']+['-I'+i for i in inc]+[src,'-o','-'])
    out={}
    for m in re.finditer(r'^define ([^\n]*?)@([\w.]+)\(([^\n]*)\)[^\n)]*\{',t,re.M):
        if re.search(r'\b(internal|private)\b',m.group(1)): continue
        ps=[]; dep=0; cur=''
        for ch in m.group(3):
            if ch in '([{<': dep+=1
            if ch in ')]}>': dep-=1
            if ch==',' and dep==0: ps.append(cur); cur=''
            else: cur+=ch
        if cur.strip(): ps.append(cur)
        out[m.group(2)]={i:set(re.findall(r'\b(readonly|writeonly|readnone)\b',p)) for i,p in enumerate(ps)}
    return out
# largest result of the size queries over the supported maxima (angular momentum 7, first derivatives; in bytes for workmem): see DESIGN.md
RESULT_MAX={'simint_eri_worksize':250_000_000,'simint_eri_workmem':2_000_000_000}

def run(c):
    c.assume=['gfortran\'s -fc-prototypes and its optimised intermediate code describe the module faithfully','the interoperable kinds are those of this platform (x86-64 Linux)',
              'size queries: the largest workspace of any supported quartet (angular momentum 7, first derivatives, any strategy and back end) is below 2^31 bytes']
    for maxder in (0,1): check_config(c,maxder,'gcc')
    if c.thorough:
        for maxder in (0,1): check_config(c,maxder,'clang-18')
    for r,n in (('types bound',2),('member offsets',40),('procedures bound',30),('argument types',80),('wrapper targets',30),('wrapper arguments',80),('wrapper results',12),('intents',60)): c.atleast(r,n)
    c.units=['skel/simint/simint.f90','skel/simint/shell/shell.h','skel/simint/simint_eri.h','skel/simint/simint_oneelectron.h','skel/simint/simint_init.h','skel/cmake/DefaultFlags.cmake']
if __name__=='__main__': report.main('C19','proof','The Fortran module is compiled with the flags cmake derives for it; the compiler\'s C prototypes and layouts of its bound entities are compared with the C syntax tree, and the intermediate code of each wrapper is analysed for which argument reaches which C parameter, through which types, under which intents.',run)
