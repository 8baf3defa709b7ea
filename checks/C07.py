"""C07: ordering and recurrence tables.
The tables are constant initialisers; the rule evaluates the defining relation on every row of the
resolved initialiser (LLVM constant for the C tables, clang AST for the generator's C++ tables)."""
import _path, os, json, subprocess
import build, llir, report
from report import Broken
S=build.REPO+'/skel'
def canon(am):
    return [(x,y,am-x-y) for x in range(am,-1,-1) for y in range(am-x,-1,-1)]
def rows(c,src,name,mod):
    g=mod.globals.get(name)
    if g is None: return None
    v=llir.global_init(g); c.need(v is not None,'%s: %s has no initialiser'%(src,name))
    return g,v
def ints(v):
    if v[0]=='czero': return None
    if v[0]=='cint' or v[0]=='int' or v[0]=='ci': return v[1]
    if v[0] in('cagg','cv'): return [ints(x[1]) for x in v[1]]
    if v[0]=='cstr': return list(v[1])
    raise Broken('unexpected initialiser %r'%(v[0],))
def expand(mod,t,v):
    """constant -> nested python lists, zero-filled"""
    t=mod.resolve(t)
    if v[0]=='czero':
        if t[0]=='i': return 0
        if t[0]=='s': return [expand(mod,x,v) for x in t[2]]
        return [expand(mod,t[2],v) for _ in range(t[1])]
    if t[0]=='i': return v[1]
    if t[0]=='s': return [expand(mod,x,y[1]) for x,y in zip(t[2],v[1])]
    return [expand(mod,t[2],y[1]) for y in v[1]]
def runtime(c,src,inc):
    mod=build.module(src,[inc,S])
    rel=os.path.relpath(src,build.REPO)
    a=rows(c,rel,'recurinfo_array',mod); m=rows(c,rel,'am_recur_map',mod)
    c.need(a and m,'%s: recurinfo_array / am_recur_map not found'%rel)
    tab=expand(mod,a[0].type,a[1]); mp=expand(mod,m[0].type,m[1])
    signed=lambda x,b:x-(1<<b) if x>=1<<(b-1) else x
    # am_recur_map: offset of each angular momentum
    off=0
    for am,o in enumerate(mp):
        c.ob(o==off,'%s:am_recur_map'%rel,'am_recur_map[%d]=%d, first row of that angular momentum is %d'%(am,o,off),rel,'map entries'); off+=(am+1)*(am+2)//2
    c.ob(len(tab)==off,'%s:recurinfo_array:size'%rel,'%d rows for %d components'%(len(tab),off),rel)
    r=0
    for am in range(len(mp)):
        cn=canon(am); low={e:i for k in range(max(0,am-2),am) for i,e in enumerate(canon(k))}; up={e:i for i,e in enumerate(canon(am+1))}
        for n,e in enumerate(cn):
            if r>=len(tab): break
            ijk,d,idx=tab[r]; ijk=tuple(signed(x,8) for x in ijk); d=signed(d,8); idx=[[signed(x,16) for x in y] for y in idx]
            K='%s:recurinfo_array[am=%d][%d]'%(rel,am,n); loc='%s (row %d)'%(rel,r)
            c.ob(ijk==e,K+'.ijk','component %s, canonical order has %s'%(ijk,e),loc,'ordering rows')
            if am==0: c.ob(d==-1 or 0<=d<3,K+'.dir','direction %d'%d,loc,'direction entries')
            else: c.ob(0<=d<3 and e[d]>0,K+'.dir','direction %d is not a quantum number that can be lowered in %s'%(d,e),loc,'direction entries')
            for x in range(3):
                for q,ch in enumerate((-1,-2,1)):
                    t=list(e); t[x]+=ch; t=tuple(t)
                    want=-1 if min(t)<0 else (up if ch==1 else low)[t]
                    c.ob(idx[x][q]==want,K+'.idx[%d][%d]'%(x,q),'component %s changed by %+d along %s: table says %d, component index is %d'%(e,ch,'xyz'[x],idx[x][q],want),loc,'index entries')
            r+=1
    c.units.append(rel); c.sample('%s: %d rows, am 0..%d'%(rel,len(tab),len(mp)-1))
    return [tuple(signed(x,8) for x in t[0]) for t in tab]
# ---- generator tables (C++ initialiser lists), from clang's AST
def ast_lists(src,var):
    cmd=['clang++-18','-std=c++11','-w','-fsyntax-only','-Xclang','-ast-dump=json','-Xclang','-ast-dump-filter='+var,src]
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    if p.returncode: raise Broken('clang++ failed on %s: %s'%(src,p.stderr[-500:]))
    dec=json.JSONDecoder(); t=p.stdout; i=0; out=None
    while True:
        while i<len(t) and t[i].isspace(): i+=1
        if i>=len(t): break
        o,i=dec.raw_decode(t,i)
        if o.get('kind')=='VarDecl' and o.get('name')==var and o.get('inner'): out=o
    if out is None: raise Broken('%s: no definition of %s'%(src,var))
    return out
def flat(n):
    """integer literals below a node in source order (initialiser lists only)"""
    k=n.get('kind')
    if k=='IntegerLiteral': return [int(n['value'])]
    if k=='UnaryOperator' and n.get('opcode')=='-': return [-x for x in flat(n['inner'][0])]
    r=[]
    for x in n.get('inner',()) or (): r+=flat(x)
    return r
def pairs(n):
    """the std::pair constructions below a map initialiser"""
    t=n.get('type',{}).get('qualType','')
    if n.get('kind') in('CXXConstructExpr','CXXTemporaryObjectExpr') and ('pair<' in t or 'value_type' in t) and not t.startswith('std::map'):
        if len(n.get('inner',()))==2: return [n]
    r=[]
    for x in n.get('inner',()) or (): r+=pairs(x)
    return r
def generator(c,fn,canonical):
    src=build.REPO+'/generator/'+fn; rel='generator/'+fn
    om={};im={}
    for var,d in (('gorder_map',om),('gindex_map',im)):
        for p in pairs(ast_lists(src,var)):
            a=flat(p['inner'][0]); c.need(len(a)==1,'%s: %s key'%(rel,var)); 
            c.ob(a[0] not in d,'%s:%s[%d]:dup'%(rel,var,a[0]),'key %d listed twice'%a[0],rel)
            d.setdefault(a[0],flat(p['inner'][1]))
    c.need(len(om)>=19 and len(im)>=19,'%s: only %d/%d angular momenta found'%(rel,len(om),len(im)))
    for am in sorted(om):
        l=[tuple(om[am][3*i:3*i+3]) for i in range(len(om[am])//3)]
        K='%s:gorder_map[%d]'%(rel,am)
        c.ob(sorted(l)==sorted(canon(am)),K+':complete','components listed are not every component exactly once: missing %s extra %s'%([x for x in canon(am) if x not in l][:3],[x for x in l if l.count(x)>1 or x not in canon(am)][:3]),rel,'generator shells complete')
        if canonical: 
            c.ob(l==canon(am),K+':order',lambda:'order differs from the runtime order at position %d'%[a==b for a,b in zip(l,canon(am))].index(False),rel,'generator shells in canonical order')
        ix=im.get(am)
        c.ob(ix is not None,K+':index','gindex_map has no entry for %d'%am,rel)
        if ix is not None:
            h=[e[0]|e[1]<<8|e[2]<<16 for e in l]
            c.ob(ix==h,'%s:gindex_map[%d]'%(rel,am),lambda:'reverse index differs from the ordering at position %s'%([k for k in range(min(len(ix),len(h))) if ix[k]!=h[k]][:3] or 'length'),rel,'generator index rows')
    c.ob(set(om)==set(im) and sorted(om)==list(range(len(om))),'%s:range'%rel,'angular momenta listed: %s / %s'%(sorted(om),sorted(im)),rel)
    c.units.append(rel)
    return om
def hashfn(c):
    """the generator looks components up by HashExpList: it must be the packing the index table uses"""
    import absint, dom
    d=build.tmp(); f=d+'/h.cpp'
    open(f,'w').write('#include "generator/Types.hpp"\nextern "C" int probe_hash(const ExpList & e){return HashExpList(e);}\n')
    bc=d+'/h.bc'; ll=d+'/h.ll'
    build.sh(['clang++-18','-std=c++11','-w','-O0','-Xclang','-disable-O0-optnone','-gline-tables-only','-fno-discard-value-names','-emit-llvm','-I'+build.REPO,'-c',f,'-o',bc])
    build.sh(['opt-18','-S','-passes=globaldce,'+build.PASSES,bc,'-o',ll])
    mod=llir.parse_module(open(ll).read(),f)
    c.need('probe_hash' in mod.functions,'HashExpList probe')
    for e in [(0,0,0),(1,2,3),(24,0,0),(0,24,0),(0,0,24),(7,11,6)]:
        I=absint.Interp(mod); mem=absint.Mem(); r=dom.Region('e','in')
        mem.wr(r).g[0]={4*k:(4,v) for k,v in enumerate(e)}
        v=I.call(mod.functions['probe_hash'],[dom.Ptr(r,0)],absint.State(True,mem))
        c.ob(v==(e[0]|e[1]<<8|e[2]<<16),'generator/Types.hpp:HashExpList','component %s is looked up as %s, the index table holds %d'%(e,str(v)[:80],e[0]|e[1]<<8|e[2]<<16),'generator/Types.hpp','packing constants')
def run(c):
    inc=build.config_headers('SCALAR')
    runtime(c,S+'/simint/recur_lookup.c',inc)
    second=S+'/simint/ostei/recur_lookup.c'
    if os.path.exists(second): runtime(c,second,inc)
    om=generator(c,'Ordering_Psi4.cpp',True)
    if os.path.exists(build.REPO+'/generator/Ordering_GAMESS.cpp'): generator(c,'Ordering_GAMESS.cpp',False)
    hashfn(c)
    c.atleast('index entries',9*1330); c.atleast('ordering rows',1330); c.atleast('generator shells complete',19)
    c.assume+=['the alternative (GAMESS) ordering is checked for completeness and self-consistency only: the runtime tables implement the default ordering']
report.main('C07','proof','Every row of every ordering/recurrence table (C initialisers from LLVM IR, C++ initialiser lists from the clang AST) is compared with the defining relation: canonical enumeration, lowered/raised component index, valid recurrence direction, offset of each angular momentum, and reverse lookup packing.',run)
