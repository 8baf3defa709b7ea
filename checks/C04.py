"""C04: concatenation of shell-pair batches and copying of shells."""
import _path, random, time
import build, report, shapes, dom, msp
from dom import *
from msp import Sh, Plan, PAIR
from absint import Mem, State, AnalysisError, Interp
from C03 import Env, Run, content, report_, mkshells
S=build.REPO+'/skel'
_n=[0]
def source(R,spec,name,method,rnd):
    """one input batch, created by the library (C03 decides that this is right)"""
    E=R.E; prs=[]
    for k,s in enumerate(spec):
        if len(s)==1: A=Sh('%ss%d'%(name,k),s[0],1); prs.append((A,A))
        else: prs.append((Sh('%sa%d'%(name,k),s[0],1),Sh('%sb%d'%(name,k),s[1],1)))
    reg=Region(name,'in'); keep=R.P; R.P=reg
    ents=[msp.entries(A,B) for A,B in prs]
    rk=[[_uniq() if rnd.random()<.7 else rnd.randint(1,5) for _ in e] for e in ents] if method else None
    kept=[list(r) for r in rk] if rk else None
    R.call('simint_initialize_multi_shellpair',Ptr(reg,0)); R.call('simint_create_multi_shellpair2',len(prs),R.pairs(prs,name+'AB'),Ptr(reg,0),method,ranks=rk)
    R.P=keep
    return reg,prs,ents,kept
def _uniq(): _n[0]=(_n[0]*7919+13)%1009; return _n[0]
def cat(c,E,specs,method,fn,rnd,again=None,outmethod=None):
    key='%s:%s:%s%s%s'%(fn,E.name,'|'.join(','.join('x'.join(map(str,s)) for s in sp) for sp in specs),':screen' if method else '',':reused' if again else '')
    if len(key)>110: key=key[:80]+'..#%d'%len(specs)
    R=Run(c,E,key)
    if outmethod is None: outmethod=method
    try:
        R.init()
        src=[source(R,sp,'in%d_'%i,method,rnd) for i,sp in enumerate(specs)]
        if again:
            o=source(R,again,'old',0,rnd); R.call('simint_create_multi_shellpair2',len(again),R.pairs(o[1],'OLDAB'),Ptr(R.P,0),0)
        lst=Region('Pin','in'); shapes.arr(R.mem,lst,[Ptr(s[0],0) for s in src])
        snap={s[0]:dict(R.mem.r[s[0]].g.get(0,{})) for s in src}
        heap={r:dict(R.mem.r[r].g.get(0,{})) for r in R.mem.r if r.kind=='heap'}
        own=msp.getf(R.mem,R.P,E.msp,'ptr')
        I=R.call(fn,len(src),Ptr(lst,0),Ptr(R.P,0),outmethod)
        prs=sum([s[1] for s in src],[]); ents=sum([s[2] for s in src],[]); sc=sum([s[3] for s in src],[]) if method else None
        bad=content(c,R,prs,ents,outmethod,key,rmax=max(x for r in sc for x in r) if outmethod else None,screens=sc if outmethod else None) if method==outmethod else content(c,R,prs,ents,outmethod,key,rmax=0)
        for s in src:
            if dict(R.mem.r[s[0]].g.get(0,{}))!=snap[s[0]]: bad.append(('input','an input batch was modified'))
        for r,g in heap.items():
            if type(own) is Ptr and own.r is r: continue
            if dict(R.mem.r[r].g.get(0,{}))!=g: bad.append(('input','storage of an input batch was modified'))
    except AnalysisError as e: bad=[('undecided','value analysis cannot follow the concatenation: %s'%e)]
    report_(c,key,bad,fn)
    c.count('concatenations')
def copyshell(c,E,n,before,am):
    """copy over a destination that was never used, or held `before` primitives"""
    key='copy_shell:%s:%d over %s'%(E.name,n,before); R=Run(c,E,key); mem=R.mem; bad=[]
    src=Sh('src',n,am); rs=Region('srcs','in'); src.put(mem,E.sh,rs); d=Region('dest','in')
    g=lambda f: msp.getf(R.mem,d,E.sh,f)
    try:
        R.call('simint_initialize_shell',Ptr(d,0))
        if before:
            old=Sh('old',before,1); ro=Region('olds','in'); old.put(R.mem,E.sh,ro)
            al=Region('ol.alpha','in'); co=Region('ol.coef','in'); shapes.arr(R.mem,al,old.al); shapes.arr(R.mem,co,old.co)
            R.call('simint_create_shell',before,1,*old.xyz,Ptr(al,0),Ptr(co,0),Ptr(d,0))
        snap={r:dict(R.mem.r[r].g.get(0,{})) for r in (rs,src.ra,src.rc)}
        R.call('simint_copy_shell',Ptr(rs,0),Ptr(d,0))
        for f,w in (('am',am),('nprim',n),('x',src.xyz[0]),('y',src.xyz[1]),('z',src.xyz[2])):
            if g(f) is None or not equal(g(f),w): bad.append((f,'%s of the copy is %s, expected %s'%(f,g(f),w)))
        a,cc=g('alpha'),g('coef')
        for nm,p,vals,other in (('alpha',a,src.al,src.ra),('coef',cc,src.co,src.rc)):
            if type(p) is not Ptr or type(p.o) is not int: bad.append((nm,'%s of the copy is not a pointer'%nm)); continue
            if p.r.kind!='heap': bad.append((nm,'%s of the copy still refers to the storage of %s'%(nm,p.r.name))); continue
            if type(p.r.size) is int and p.o+8*n>p.r.size: bad.append((nm,'%s of the copy exceeds its block'%nm))
            for i,v in enumerate(vals):
                x=msp.rd(R.mem,R.I,p,8*i,8,'d')
                if x is None or not equal(x,v): bad.append((nm,'%s[%d] of the copy is %s, expected %s'%(nm,i,x,v)))
        if type(a) is Ptr and type(cc) is Ptr and a.r is cc.r and abs(a.o-cc.o)<8*n: bad.append(('coef','exponents and coefficients of the copy overlap'))
        pt=g('ptr')
        if not(type(pt) is Ptr and pt.r.kind=='heap'): bad.append(('ptr','the copy does not own its storage'))
        elif type(a) is Ptr and type(cc) is Ptr and not(pt.r is a.r is cc.r): bad.append(('ptr','the copy does not own the storage of its data'))
        for r,gg in snap.items():
            if dict(R.mem.r[r].g.get(0,{}))!=gg: bad.append(('input','the source was modified'))
    except AnalysisError as e: bad=[('undecided','value analysis cannot follow the copy: %s'%e)]
    report_(c,key,bad,'simint_copy_shell'); c.count('shell copies')
def createshell(c,E,n,am,before):
    key='create_shell:%s:%d over %s'%(E.name,n,before); R=Run(c,E,key); bad=[]; d=Region('dest','in'); g=lambda f: msp.getf(R.mem,d,E.sh,f)
    s=Sh('s',n,am); al=Region('alpha','in'); co=Region('coef','in'); shapes.arr(R.mem,al,s.al); shapes.arr(R.mem,co,s.co)
    try:
        R.call('simint_initialize_shell',Ptr(d,0))
        for k,w in ((before,0),(n,1)):
            if not k: continue
            o=s if w else Sh('o',k,3); 
            if not w: al0=Region('alpha0','in'); co0=Region('coef0','in'); shapes.arr(R.mem,al0,o.al); shapes.arr(R.mem,co0,o.co)
            R.call('simint_create_shell',k,o.am,*o.xyz,Ptr(al if w else al0,0),Ptr(co if w else co0,0),Ptr(d,0))
        for f,w in (('am',am),('nprim',n),('x',s.xyz[0]),('y',s.xyz[1]),('z',s.xyz[2])):
            if g(f) is None or not equal(g(f),w): bad.append((f,'%s is %s, expected %s'%(f,g(f),w)))
        for nm,vals in (('alpha',s.al),('coef',s.co)):
            p=g(nm)
            if type(p) is not Ptr or p.r.kind!='heap': bad.append((nm,'%s is not owned storage'%nm)); continue
            for i,v in enumerate(vals):
                x=msp.rd(R.mem,R.I,p,8*i,8,'d')
                if x is None or not equal(x,v): bad.append((nm,'%s[%d] is %s, expected %s'%(nm,i,x,v)))
    except AnalysisError as e: bad=[('undecided','value analysis cannot follow the creation: %s'%e)]
    report_(c,key,bad,'simint_create_shell'); c.count('shell creations')
def run(c):
    c.units.append('simint/shell/shell.c'); rnd=random.Random(11)
    E1=Env(c,'SCALAR',1,()); E2=Env(c,'SSE',2,('-msse4.2',)); E4=Env(c,'AVX2',4,('-mavx2','-mfma')); E0=Env(c,'AVX2',4,('-mavx2','-mfma'),0); E8=Env(c,'COMMONAVX512',8,('-mavx512f',))
    ch=[(1,1),(1,2),(2,2),(3,1),(2,),(1,),(3,)]
    for E in (E1,E2,E4,E0,E8):
        NS=2*E.L
        for n in (1,2,3) if not c.thorough else (1,2,3,4,5):
            for before in (None,1,2,5): copyshell(c,E,n,before,2); createshell(c,E,n,2,before)
        for method in (0,1):
            T=[[[(2,1)]],[[(1,1)],[(1,2)]],[[(2,)],[(1,2),(3,)]],[[rnd.choice(ch)] for _ in range(NS)],[[rnd.choice(ch)] for _ in range(NS+1)],
               [[rnd.choice(ch) for _ in range(NS+1)],[rnd.choice(ch)]],[[rnd.choice(ch) for _ in range(NS-1)],[rnd.choice(ch) for _ in range(NS+2)],[rnd.choice(ch)]],
               [[rnd.choice(ch) for _ in range(NS)],[rnd.choice(ch) for _ in range(2*NS)],[rnd.choice(ch)]]]
            if E in (E1,E8) and not c.thorough: T=T[1:3]+T[4:6]
            for _ in range(8 if not c.thorough else 60): T.append([[rnd.choice(ch) for _ in range(rnd.randint(1,NS+2))] for _ in range(rnd.randint(1,4))])
            for sp in T: cat(c,E,sp,method,'simint_cat_multi_shellpair',rnd)
            cat(c,E,T[0],method,'simint_cat_multi_shellpair',rnd,again=[(3,3)]*3); cat(c,E,T[1],method,'simint_cat_multi_shellpair',rnd,again=[(1,1)])
            for n in (1,2,NS-1,NS,NS+1,2*NS,2*NS+1):
                if E in (E1,E8) and n>NS and not c.thorough: continue
                cat(c,E,[[rnd.choice(ch)] for _ in range(n)],method,'simint_cat_shellpairs',rnd,again=[(1,1)] if n==2 else None)
            # input batches larger than their content needs (storage reused from a bigger batch)
        cat(c,E,[[(2,1)],[(1,),(2,2)]],1,'simint_cat_multi_shellpair',rnd,outmethod=0); cat(c,E,[[(2,1)],[(2,2)]],1,'simint_cat_shellpairs',rnd,outmethod=0)
        if c.verbose: print(E.name,'%.1f'%(time.time()-c.t0))
    c.assume+=['the input batches are as the library builds them (property C03)','shapes beyond those enumerated are covered by the uniformity of the loops only']
    c.sample('every field of every entry of the concatenation equals the corresponding entry of the batch filled with all pairs in order')
    c.atleast('concatenations',100); c.atleast('shell copies',30)
if __name__=='__main__':
    report.main('C04','proof','Concatenation and copying are abstractly interpreted over enumerated shapes (inputs of one and several pairs around every batch boundary, with and without screening values, fresh and reused destinations, vector lengths 1, 2, 4, 8) with symbolic contents; the result must hold exactly the data of all pairs in order, with neutral padding, and inputs must be unchanged.',run)
