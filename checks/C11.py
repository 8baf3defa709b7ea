"""C11: routines for permuted quartets return the integrals of the caller's quartet."""
import _path, sys, time, itertools
import build, gen, kern, quartet, report, shapes, msp
from dom import *
from quartet import *
from kern import components
from absint import AnalysisError
SWAP={'PA_x':'PB_x','PA_y':'PB_y','PA_z':'PB_z','PB_x':'PA_x','PB_y':'PA_y','PB_z':'PA_z','alpha2':'beta2','beta2':'alpha2'}
SCAL=('nshell12','nshell12_clip','nprim','screen_max')
def content(I,mem,st,ptr,n,size,mod):
    return [I.load(mem,I.ptradd(ptr,size*k),('f',64) if size==8 else ('i',32),mod,st,None) for k in range(n)]
class Arg:
    def __init__(self,C,S,nm):
        self.C=C; self.S=S; self.nm=nm; self.der=C.der; self.n=len(S['nps'])
    def present(self,I,st,ptr,mod):
        """how a structure passed on presents this side: False as is, True with the two centres exchanged; problems found"""
        S=self.S; lay=self.C.lay; pr=[]; kind=set()
        def fld(f): o,s=lay[f]; return I.load(st.mem,I.ptradd(ptr,o),('p',) if f not in SCAL else (('f',64) if f=='screen_max' else ('i',32)),mod,st,None)
        def want(f): o,s=lay[f]; return I.load(self.C.mem,Ptr(S['reg'],o),('p',) if f not in SCAL else (('f',64) if f=='screen_max' else ('i',32)),mod,st,None)
        for f in SCAL:
            a,b=fld(f),want(f)
            if not same(a,b): pr.append('%s of %s is %s instead of %s'%(f,self.nm,a,b))
        N=S['plan'].total
        for f in S['r']:
            n=len(S['v'][f]) if f in S['v'] else self.n
            size=4 if f=='nprim12' else 8
            w=S['v'][f] if f in S['v'] else list(S['nps'])
            p=fld(f)
            if type(p) is not Ptr: pr.append('%s of %s is not a pointer (%s)'%(f,self.nm,str(p)[:60])); continue
            idx=range(n) if f in msp.PAIR or f=='nprim12' else S['real']
            got=content(I,st.mem,st,p,n,size,mod)
            if f in SWAP:
                a=all(same(got[k],w[k]) for k in idx); ws=S['v'][SWAP[f]]; b=all(same(got[k],ws[k]) for k in idx)
                if not(a or b): pr.append('%s of %s is neither the caller\'s %s nor its %s'%(f,self.nm,f,SWAP[f]))
                elif a!=b and (self.der or f not in('alpha2','beta2')): kind.add((b,f))
            elif f.startswith('AB_'):
                a=all(same(got[k],w[k]) for k in idx); b=all(same(got[k],neg(w[k])) for k in idx)
                if not(a or b):
                    k=[k for k in idx if not same(got[k],w[k]) and not same(got[k],neg(w[k]))]
                    pr.append('%s of %s for pair %s of %d is neither the displacement nor its negative'%(f,self.nm,k[:1] or '(mixed)',n))
                else: kind.add((b,f))
            else:
                k=[k for k in idx if not same(got[k],w[k])]
                if k: pr.append('%s of %s differs for entry %d'%(f,self.nm,k[0]))
        if len({x for x,_ in kind})>1: pr.append('%s is presented inconsistently: exchanged %s, as is %s'%(self.nm,sorted(f for x,f in kind if x),sorted(f for x,f in kind if not x)))
        return any(x for x,_ in kind),pr
_I={}
def integral(ab,cd,e,cen):
    k=(ab,cd,e,cen); r=_I.get(k)
    if r is None: r=_I[k]=sym('G%d,%d(%s)%s'%(ab,cd,'|'.join('%d%d%d'%x for x in e),cen))
    return r
CEN=[(c,d) for c in 'ABCD' for d in 'xyz']
def analyse(Q,name,mod,shape):
    am,der=am_name(name); pn,qn,clp,clq=shape
    ns=max(max(pn),max(qn))
    scr=([sym('sp%d'%i) for i in range(sum(pn))],[sym('sq%d'%i) for i in range(sum(qn))])
    C=Case2(Q,pn,qn,clp,clq); C.der=der; P,S=Arg(C,C.P,'bra'),Arg(C,C.Q,'ket'); prob=[]; calls=[]
    tol=sym('tol')
    def hook(callee):
        cam,cder=am_name(callee)
        def h(I,ins,args,st):
            p,q,t,w,o=args; sb,pr=P.present(I,st,p,mod); sk,pr2=S.present(I,st,q,mod); loc=I.loc(ins)
            for x in pr+pr2: prob.append(('args',x,loc))
            if not same(t,tol): prob.append(('tol','the tolerance handed on is %s'%str(t)[:60],loc))
            if type(w) is not Ptr or w.r is not C.work or w.o!=0: prob.append(('work','the workspace handed on is %s'%str(w)[:60],loc))
            wam=(am[1],am[0]) if sb else am[:2]; wam+=(am[3],am[2]) if sk else am[2:]
            if wam!=cam: prob.append(('am','delegates to %s while presenting a quartet of angular momenta %s'%(callee,wam),loc))
            if cder!=der: prob.append(('der','delegates to %s'%callee,loc))
            calls.append(callee); k=0
            for ab in range(C.P['clip']):
                for cd in range(C.Q['clip']):
                    for e in components(cam):
                        e2=((e[1],e[0]) if sb else e[:2])+((e[3],e[2]) if sk else e[2:])
                        for cen in (CEN if cder else [None]):
                            cc=cen
                            if cen:
                                c,d=cen
                                if sb: c={'A':'B','B':'A'}.get(c,c)
                                if sk: c={'C':'D','D':'C'}.get(c,c)
                                cc=(c,d)
                            I.store(st.mem,I.ptradd(o,8*k),integral(ab,cd,e2,cc and ''.join(cc) or ''),('f',64),mod,st,ins); k+=1
            return C.P['clip']*C.Q['clip']
        return h
    cs=kernels_called(mod,name)
    if not cs: return [('none','calls no other routine','')],0,0
    comp=components(am); nout=C.P['clip']*C.Q['clip']*len(comp)*(12 if der else 1)
    I=C.run([mod],name,{k:hook(k) for k in cs},[Ptr(C.P['reg'],0),Ptr(C.Q['reg'],0),tol,Ptr(C.work,0),Ptr(C.out,0)],outsize=8*nout)
    if len(calls)!=1: prob.append(('calls','calls %s'%calls,''))
    flat,oth=C.outputs(); k=0; nb=0
    for ab in range(C.P['clip']):
        for cd in range(C.Q['clip']):
            for e in comp:
                for cen in (CEN if der else ['']):
                    w=integral(ab,cd,e,''.join(cen)); v=flat.get(8*k)
                    if v is None or not same(v,w):
                        nb+=1
                        if nb<=2: prob.append(('value','output %d (quartet %d,%d component %s %s) is %s'%(k,ab,cd,e,''.join(cen),str(v)[:80]),C.where(8*k)))
                    k+=1
    if len(flat)!=k or oth: prob.append(('extent','writes %d values, the output has %d'%(len(flat),k),''))
    if C.over: prob.append(('bounds',str(C.over[:2]),''))
    if C.illegal: prob.append(('input','writes to its arguments: %s'%C.illegal[:2],''))
    if C.ret!=C.P['clip']*C.Q['clip']: prob.append(('ret','returns %s'%str(C.ret)[:60],''))
    return prob,k,I.ninstr
class Case2(kern.Case):
    """symbolic screening values; nothing to type"""
    typed=False
    def __init__(self,Q,pn,qn,cp,cq):
        super().__init__(Q.lay,Q.L,pn,qn,der=Q.der,clipP=cp,clipQ=cq)
        for nm,s in (('P',self.P),('Q',self.Q)):
            v=[sym('%s.screen%d'%(nm,i)) for i in range(s['plan'].total)]; r=Region(nm+'.screen','in',8*len(v)); shapes.arr(self.mem,r,v); s['r']['screen']=r; s['v']['screen']=v
            shapes.setf(self.mem,s['reg'],self.lay,0,'screen',Ptr(r,0)); shapes.setf(self.mem,s['reg'],self.lay,0,'screen_max',sym(nm+'.smax'))
    def geom(self,i,j): pass
SHAPES=[([1],[1],1,1),([1,2],[1,1,2],2,3),([2,1,1],[1],3,1),([1,1],[1,1],2,1)]
def wrappers(Q,f):
    mod=Q.module(f); return mod,[n for n in mod.functions if KRE.match(n) and kernels_called(mod,n) and not mod.functions[n].internal]
def job(Q,f,shapes_):
    mod,ws=wrappers(Q,f); out=[]
    for n in ws:
        for s in shapes_: out.append((n,s)+tuple(analyse(Q,n,mod,s)))
    return out
def run(c):
    c.assume+=['the delegated-to routine returns the integrals of the pairs presented to it (C09, C10)','batch sizes 1 to 3 on either side; the copying loops treat every quartet alike']
    libs=dict(general=gen.GENERAL,external=gen.EXTERNAL,all=dict(l=2,p=0,ve=20,vg=20,he=20,hg=20,d=1))
    if c.thorough: libs.update(g4=dict(l=4,p=3,ve=0,vg=0,he=0,hg=0,d=1),p1=dict(l=3,p=1,ve=20,vg=20,he=20,hg=20,d=1),g5=dict(l=5,p=5,ve=0,vg=0,he=0,hg=0,d=0))
    seen=set()
    for nm,opts in libs.items():
        L=gen.generate(nm,opts); Q=QLib(L,helpers=False); t0=time.time(); ks=Q.kernels(0)+(Q.kernels(1) if opts['d'] else [])
        from kern import nc
        def size(k):
            am,d=am_name(k); x=12 if d else 1
            for a in am: x*=nc(a)
            return x
        def jf(k): return job(Q,k,SHAPES if size(k)<=300 else [SHAPES[1]] if size(k)<700 else [([1,1],[1],2,1)] if size(k)<=20000 else [([1],[1],1,1)])
        for f,r,err,dt in pool(sorted(ks,key=size,reverse=True),jf):
            if err: c.violation(f,'the wrappers in this file cannot be followed: %s'%err,'%s/%s.c'%(nm,f)); continue
            for n,s,prob,k,ni in r:
                if n not in seen: seen.add(n); c.count('programs'); c.units.append(n)
                c.nob+=1; c.count('permutation wrapper returns the caller\'s integrals (routine x batch shape)'); c.count('output slots',k)
                if not prob: c.nok+=1
                else:
                    c.nob-=1
                    for kind,msg,l in prob[:4]: c.violation('%s:%s'%(n,kind),'[%s, %d x %d pairs] %s'%(nm,len(s[0]),len(s[1]),msg),l or '%s/%s.c'%(nm,f))
        print('  %s: %.1f s'%(nm,time.time()-t0)); sys.stdout.flush()
    # every ordering of a direct quartet that the library must offer exists as a function
    c.atleast('programs',100)
    c.sample('ostei_deriv1_p_d_s_p: direct routine gets PA<->PB, AB negated, alpha2<->beta2 on both sides; blocks of centres exchanged back')
if __name__=='__main__':
    report.main('C11','translation_validation','Every permutation wrapper the generator emits (energies and first derivatives, several option sets) is abstractly interpreted with symbolic shell pairs over several batch shapes; the routine it delegates to is replaced by its contract. The structures it hands on must present each side either as given or consistently with the two centres exchanged, and every output slot must end up with the integral of exactly the caller\'s quartet, component and centre.',run)
