"""C12: every request is dispatched to the routine generated for exactly that quartet."""
import _path, os, itertools
import build, gen, report, shapes, dom, absint
from dom import *
from absint import Interp, Mem, State, AnalysisError, FnPtr
S=build.REPO+'/skel'
AM="spdfghik"
LIB={}
FILES=('simint_init.c','simint_eri.c','ostei/ostei.c','ostei/ostei_init.c','ostei/ostei_deriv1_init.c')
PRE={0:'ostei',1:'ostei_deriv1'}
def name(d,q): return PRE[d]+'_'+'_'.join(AM[x] for x in q)
def headers(d,m,md):
    """declarations a generated library of maximum m and derivative order md provides"""
    L=LIB.get(md) or LIB.setdefault(md,gen.generate('c12_d%d'%md,dict(l=0,p=0,d=md)))
    os.makedirs(d+'/simint/ostei',exist_ok=True)
    open(d+'/simint/ostei/ostei_config.h','w').write(open(L.path+'/simint/ostei/ostei_config.h.in').read().replace('@SIMINT_MAXAM@',str(m)).replace('@SIMINT_MAXDER@',str(md)))
    g=d+'/simint/ostei/gen'; os.makedirs(g,exist_ok=True)
    for k,fn in ((0,'ostei_generated.h'),(1,'ostei_deriv1_generated.h')):
        with open(g+'/'+fn,'w') as f:
            f.write('#pragma once\n#include "simint/ostei/ostei.h"\n')
            if k<=md:
                for q in itertools.product(range(m+1),repeat=4):
                    f.write('int %s(struct simint_multi_shellpair const P,struct simint_multi_shellpair const Q,double t,double * const restrict w,double * const restrict o);\n'%name(k,q))
def pairs(lay,conc=None):
    mem=Mem(); rs=[]
    for k,nm in enumerate('PQ'):
        r=Region(nm,'in',lay['sizeof']); rs.append(r)
        for f in [f for f in shapes.MSP if f in lay]:
            v=sym('%s.%s'%(nm,f))
            if f in('am1','am2'):
                if conc is not None: v=conc[2*k+(f=='am2')]
                else: NONNEG.add(next(iter(v.t))[0][0])
            if lay[f][1]==8 and f in('ptr','screen','alpha','prefac','x','y','z','AB_x','AB_y','AB_z','PA_x','PA_y','PA_z','PB_x','PB_y','PB_z','alpha2','beta2','nprim12'): v=Ptr(Region('%s.%s[]'%(nm,f),'in'),0)
            shapes.setf(mem,r,lay,0,f,v)
    return mem,rs
def init(c,ms):
    I=Interp(*ms); st=State(True,Mem())
    f=[m.functions['simint_init'] for m in ms if 'simint_init' in m.functions]
    c.need(f,'simint_init not found')
    I.call(f[0],[],st); c.count('instructions',I.ninstr)
    return I,st
def dispatch(c,I,mem0,entry,deriv,lay,rs,mem,hook,load_hook):
    fn=I.funcs.get(entry); c.need(fn is not None,'%s not found'%entry)
    for r,s in mem0.r.items(): mem.r[r]=s
    I.load_hook=load_hook; I.hooks['*indirect']=hook
    st=State(True,mem); tol=sym('tol'); w=Ptr(Region('work','out'),0); o=Ptr(Region('integrals','out'),0)
    a=[Ptr(rs[0],0),Ptr(rs[1],0),tol,w,o]
    if deriv is not None: a=[deriv]+a
    n=len(I.events)
    r=I.call(fn,a,st)
    I.load_hook=None
    return r,tol,w,o,I.events[n:]
def same_struct(I,st,p,q,mem,lay):
    """*p has the contents of q (before the call)"""
    if type(p) is not Ptr: return False
    if p.r is q and p.o==0:
        return st.mem.r.get(q) is mem.r.get(q) or all(_eq(st.mem.r[q].g[0].get(lay[f][0]),mem.r[q].g[0].get(lay[f][0])) for f in shapes.MSP if f in lay)
    rs=st.mem.r.get(p.r)
    for f in [f for f in shapes.MSP if f in lay]:
        off,sz=lay[f]
        x=I.load_rs(st.mem,p.r,rs,add(p.o,off),sz,{4:'i32',8:'d'}[sz])
        if not _same(x,mem.r[q].g[0][off][1]): return False
    return True
def _same(a,b):
    if type(a) is Ptr or type(b) is Ptr: return type(a) is Ptr and type(b) is Ptr and a.r is b.r and equal(a.o,b.o)
    return equal(a,b)
def _eq(a,b): return a is not None and b is not None and a[0]==b[0] and _same(a[1],b[1])
def run(c):
    K='dispatch'
    for m,md in [(7,1),(0,0),(1,0),(3,0),(7,0)]+[(x,1) for x in range(7)]:
        inc=build.config_headers('SCALAR',d=os.path.join(build.tmp(),'c12_%d_%d'%(m,md))); headers(inc,m,md)
        try: ms=[build.module(S+'/simint/'+f,[inc,S]) for f in FILES if os.path.exists(S+'/simint/'+f)]
        except build.BuildError as e:
            c.violation('build:%d:%d'%(m,md),'with maximum angular momentum %d and derivative order %d the library does not compile against the routines it generates: %s'%(m,md,str(e)[-400:]),'skel/simint/ostei'); continue
        lay=shapes.layout('simint_multi_shellpair',[f for f in shapes.MSP if md or f not in('alpha2','beta2')],(inc,S))
        c.count('built maxima')
        I,st0=init(c,ms)
        for e in I.events:
            if e.kind=='store' and e.reg is not None and e.reg.kind=='global' and e.reg.size is not None and type(e.off) is int:
                if not (0<=e.off and e.off+e.size<=e.reg.size): c.violation('%d:%d:init bounds'%(m,md),'initialisation writes %s outside its %d bytes (offset %d)'%(e.reg.name,e.reg.size,e.off),I.loc(e.ins))
        for entry in ('simint_compute_eri','simint_compute_eri_deriv','simint_compute_ostei','simint_compute_ostei_deriv'):
            der=entry.endswith('_deriv')
            for d in (range(md+1) if der else (0,)):
                mem,rs=pairs(lay); orig=Mem(dict(mem.r)); got=[]; loads={}
                def lh(I,mm,p,size,ty,ins):
                    if ty=='p' and p.r.kind=='global' and type(p.o) is Poly:
                        s=sym('fn#%d'%len(loads)); loads[key(s)]=(p.r,p.o); return s
                def hk(I,ins,p,args,st):
                    got.append((p,args,State(st.pc,st.mem.fork()),ins)); return sym('ret')
                r,tol,w,o,evs=dispatch(c,I,st0.mem,entry,d if der else None,lay,rs,mem,hk,lh)
                loc='skel/simint/ostei/ostei.c'
                kk='%s:%d:%s'%(entry,m,d)
                if len(got)!=1 or key(got[0][0]) not in loads:
                    c.need(False,'%s: dispatch through a table indexed by the angular momenta was not recognised'%entry)
                p,args,stc,ins=got[0]; reg,off=loads[key(p)]
                # result
                t2=mul(tol,tol); scr=sub(t2,mul(sym('P.screen_max'),sym('Q.screen_max')))
                want=ite(cand(fgt(tol),fgt(scr)),-1,sym('ret'))
                c.ob(equal(r,want),kk+':result','result is %s, expected -1 exactly when tol>0 and P.screen_max*Q.screen_max < tol^2, else the routine\'s value'%str(r)[:300],I.loc(ins),'results')
                ok=len(args)==5 and same_struct(I,stc,args[0],rs[0],orig,lay) and same_struct(I,stc,args[1],rs[1],orig,lay)
                c.ob(ok,kk+':pairs','the shell pairs are not passed unchanged as bra then ket',I.loc(ins),'arguments')
                c.ob(len(args)==5 and equal(args[2],t2) and _same(args[3],w) and _same(args[4],o),kk+':args','tolerance, workspace or output not passed as expected: %s'%str(args[2:])[:200],I.loc(ins),'arguments')
                c.ob(not [e for e in evs if e.kind in('store','memcpy','memset') and e.reg is not None and e.reg.kind not in('alloca','byval')],kk+':writes','dispatch writes to memory',I.loc(ins))
                # table
                cells=st0.mem.r.get(reg); cells=cells.g.get(0,{}) if cells else {}
                idx=[next(iter(sym('%s.am%d'%(x,k)).t))[0][0] for x in 'PQ' for k in (1,2)]
                lin=[0]*4; base=0
                for mono,co in off.t.items():
                    if mono==(): base=co
                    elif len(mono)==1 and mono[0][1]==1 and mono[0][0] in idx: lin[idx.index(mono[0][0])]=co
                    else: c.need(False,'table index %s is not linear in the angular momenta'%str(off)[:200])
                for q in itertools.product(range(m+1),repeat=4):
                    x=cells.get(base+sum(a*b for a,b in zip(lin,q)))
                    wn=name(d,q)
                    okq=x is not None and type(x[1]) is FnPtr and x[1].name==wn
                    if okq: c.nob+=1; c.nok+=1; c.count('dispatched quartets')
                    else: c.violation('%s:%s'%(entry if der else 'eri',wn),'%s for (%s) of derivative order %d reaches %s'%(entry,' '.join(AM[i] for i in q),d,x[1].name if x and type(x[1]) is FnPtr else 'an empty table entry' if x is None else str(x[1])),'skel/simint/ostei/%s_init.c'%PRE[d])
                if m==7: c.sample('%s derivative %d: table offset %s'%(entry,d,str(off)[:150]))
    c.units+=list(FILES)
    c.atleast('dispatched quartets',50000)
    c.assume.append('the routine named ostei_<a>_<b>_<c>_<d> is the one generated for that quartet (decided by C09, C10, C11, C20)')
report.main('C12','proof','Initialisation and the four public compute entry points are abstractly interpreted for every built maximum 0..7 and derivative order. The function table after initialisation is read at the index expression the dispatcher uses, for every quartet, and must name that quartet\'s routine; arguments, the screened-out result and absence of writes are decided for symbolic pairs.',run) if __name__=='__main__' else None
