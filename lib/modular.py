"""Compositional analysis of large routines: calls of the general recurrence steps (C08) and of separately emitted horizontal
routines (C09) are replaced by their contracts. A block of intermediates is one token (what it holds, where it starts); a step's
operands must be exactly the blocks its contract asks for, complete and not overwritten, with the geometry of its own centre."""
import re, kern
from dom import *
from absint import AnalysisError
from kern import nc, components, LET, am_of
Z=(0,0)
def size(am): 
    n=1
    for a in am: n*=nc(a)
    return n
class Tok:
    __slots__=('base','am','w','n')
    def __init__(self,base,am,w,n): self.base=base; self.am=am; self.w=w; self.n=n  # n orders
def same_w(a,b): return a is b or (a is not None and b is not None and same(a,b))
_comp={}
def comps(am):
    r=_comp.get(am)
    if r is None: r=_comp[am]=components(am)
    return r
class Modular(kern.Case):
    """one primitive quartet, scalar build"""
    def install(self,contracts=True):
        self.tok={}; self.prob=[]; self.nstep=0
        if not contracts: return {}
        h={'ostei_general_vrr1':self.vrr1}
        for q,x in enumerate('IJKL'):
            h['ostei_general_vrr_'+x]=self.vrr(q); h['ostei_general_hrr_'+x]=self.hrr(q)
        return h
    def go(self,mods,mod,name,contracts=True):
        h=self.install(contracts)
        if contracts:
            for m in mods:
                for fn in m.functions:
                    x=re.match(r'^HRR_([IJKL])_(\w)_(\w)$',fn)
                    if x and not m.functions[fn].internal: h[fn]=self.hrr_named('IJKL'.index(x.group(1)),am_of(x.group(2)),am_of(x.group(3)))
        return self.run(mods+[mod],name,extra_hooks=h,prepare=self.prepare)
    def prepare(self,I):
        sh,lh=I.store_hook,I.load_hook; tok=self.tok; get=tok.get
        def store(I,mem,p,size_,v,st,ins):
            d=get(p.r)
            if d is not None and type(p.o) is int:
                for k in range(8*len(v)//8 if type(v) is tuple else 1): d.pop(p.o+8*k,None)
            elif d: raise AnalysisError('store at an unresolved offset into %s at %s'%(p.r.name,I.loc(ins)))
            return sh(I,mem,p,size_,v,st,ins)
        def load(I,mem,p,size_,ty,ins):
            d=get(p.r)
            if d is not None:
                if type(p.o) is not int: raise AnalysisError('load at an unresolved offset from %s at %s'%(p.r.name,I.loc(ins)))
                t=d.get(p.o)
                if t is not None:
                    lh(I,mem,p,size_,ty,ins)
                    return self.value(t,(p.o-t.base)//8)
            return lh(I,mem,p,size_,ty,ins)
        I.store_hook=store; I.load_hook=load; I.fast=True
    def value(self,t,k):
        n=size(t.am); m,k=divmod(k,n); v=self.Ty.theta(comps(t.am)[k],m,Z)
        return v if t.w is None else mul(t.w,v)
    def bad(self,what,I,ins):
        self.prob.append((what,I.loc(ins)))
        if len(self.prob)>40: raise AnalysisError('too many problems, first: %s at %s'%self.prob[0])
    def operand(self,st,p,am,lo,hi,I,ins,what,weight=False):
        """p must point to orders lo..hi-1 of the block of angular momenta am -> its weight"""
        if type(p) is not Ptr or type(p.o) is not int: self.bad('%s: operand is %s'%(what,str(p)[:60]),I,ins); return None
        n=size(am)*(hi-lo); d=self.tok.get(p.r) or {}; t=d.get(p.o); end=p.o+8*n
        if type(p.r.size) is int and end>p.r.size or p.o<0: self.bad('%s: operand of %d values at byte %d exceeds %s (%s bytes)'%(what,n,p.o,p.r.name,p.r.size),I,ins); return None
        base=p.o-8*size(am)*lo; w=None; rs=st.mem.r.get(p.r); g=rs.g.get(0,{}) if rs else {}; C=comps(am)
        if t is not None and t.am==am and t.base==base: w=t.w
        elif t is not None:
            self.bad('%s: expects the %d integrals of %s, orders %d to %d, but finds those of %s, from value %d on'%(what,n,am,lo,hi-1,t.am,(p.o-t.base)//8),I,ins); return None
        ex=t; k=0; fresh=False
        for m in range(lo,hi):
            for e in C:
                x=p.o+8*k; y=d.get(x)
                if y is not None:
                    if y is not ex and not(y.am==am and y.base==base and same_w(y.w,w)):
                        self.bad('%s: value %d of the operand should be the order-%d integral over %s; that slot was overwritten with value %d of %s'%(what,k,m,e,(x-y.base)//8,y.am),I,ins); return None
                else:
                    c=g.get(x); v=c[1] if c else None; th=self.Ty.theta(e,m,Z); fresh=True
                    if k==0 and weight and v is not None and not same(v,th): w=self.weight_of(v,th)
                    if v is None or not same(v,th if w is None else mul(w,th)):
                        self.bad('%s: value %d of the operand should be the order-%d integral over %s, is %s'%(what,k,m,e,str(v)[:120]),I,ins); return None
                k+=1
        if not fresh: return w
        self.put(p,am,lo,hi,w)
        return w
    def weight_of(self,v,x):
        if type(v) is not Poly or len(v.t)!=1 or len(x.t)!=1: return None
        (mono,c),=v.t.items(); (xm,_),=x.t.items(); rest=tuple(z for z in mono if z!=xm[0])
        if len(rest)!=len(mono)-1 or any(a not in self.Ty.weights for a,_ in rest): return None
        return Poly({rest:c})
    def put(self,p,am,lo,hi,w):
        n=size(am); d=self.tok.setdefault(p.r,{}); t=Tok(p.o-8*n*lo,am,w,hi); d.update(dict.fromkeys(range(p.o,p.o+8*n*(hi-lo),8),t))
    def output(self,st,p,am,n,w,I,ins,what):
        if type(p) is not Ptr or type(p.o) is not int: self.bad('%s: output is %s'%(what,str(p)[:60]),I,ins); return
        b=8*size(am)*n
        if st.pc is not True: raise AnalysisError('a recurrence step under a data-dependent condition at %s'%I.loc(ins))
        if p.o<0 or (type(p.r.size) is int and p.o+b>p.r.size): self.bad('%s: output of %d values at byte %d exceeds %s (%s bytes)'%(what,b//8,p.o,p.r.name,p.r.size),I,ins)
        if p.r is self.work: self.wtop=max(self.wtop,p.o+b)
        if p.r.kind in('in','global'): self.bad('%s: writes to %s'%(what,p.r.name),I,ins)
        if p.r is self.out:
            # results written straight to the caller's array become ordinary cells
            self.otop=max(self.otop,p.o+b)
            if n!=1: self.bad('%s: writes %d orders to the output'%(what,n),I,ins)
            rs=st.mem.wr(p.r); g=rs.g.setdefault(0,{}); rs.dirty.add(0)
            for k,e in enumerate(comps(am)):
                v=self.Ty.theta(e,0,Z); g[p.o+8*k]=(8,v if w is None else mul(w,v)); self.last[p.r,p.o+8*k]=(g[p.o+8*k][1],ins)
            return
        self.put(p,am,0,n,w); self.nstep+=1
    def chk(self,ok,what,I,ins):
        if not ok: self.bad(what,I,ins)
    def three(self,I,st,p,ref,what,ins):
        if type(p) is not Ptr: self.bad('%s is %s'%(what,str(p)[:50]),I,ins); return
        k=(p.r,p.o,what)
        got=[I.load(st.mem,I.ptradd(p,8*d),('f',64),ins.fn.mod,st,ins) for d in range(3)]
        for d in range(3):
            if not same(got[d],ref[d]): self.bad('%s: %s component is %s'%(what,'xyz'[d],str(got[d])[:100]),I,ins)
    def scal(self,v,ref,what,I,ins):
        if not same(v,ref): self.bad('%s is %s'%(what,str(v)[:100]),I,ins)
    def vrr1(self,I,ins,args,st):
        i,nn,o2p,aop,PQ,PA,t1,t2,out=args; g=self.Ty.geo[Z]; nm='vrr1(%s)'%i
        pa=[I.load(st.mem,I.ptradd(PA,8*d),('f',64),ins.fn.mod,st,ins) for d in range(3)] if type(PA) is Ptr else None
        own=next((w for w in range(4) if pa and all(same(pa[d],g['X'][w][d]) for d in range(3))),None)
        if own is None: self.bad('%s: displacement is that of no centre'%nm,I,ins); own=0
        am=[0]*4; am[own]=i; self.step(I,ins,st,own,tuple(am),nn,o2p,aop,None,PQ,PA,[t1,t2],out,nm)
    def vrr(self,own):
        def h(I,ins,args,st):
            i,j,k,l,nn,o2p,aop,o2pq,PQ,PA,t1,t2,t3,t4,t5,out=args
            th=[t1,t2,t3,t4,t5]
            if own in(1,3): th=[t1,t3,t2,t4,t5]  # the partner's family comes first
            self.step(I,ins,st,own,(i,j,k,l),nn,o2p,aop,o2pq,PQ,PA,th,out,'vrr_%s%s'%('IJKL'[own],(i,j,k,l)))
        return h
    def step(self,I,ins,st,own,am,nn,o2p,aop,o2pq,PQ,PA,th,out,nm):
        if not all(type(x) is int for x in am+(nn,)): raise AnalysisError('angular momenta of a step not resolved at %s'%I.loc(ins))
        g=self.Ty.geo[Z]; bra=own<2; par=own^1; oth=(2,3) if bra else (0,1)
        if am[own]<1: self.bad('%s: nothing to raise'%nm,I,ins); return
        low=lambda *q:tuple(a-sum(1 for x in q if x==w) for w,a in enumerate(am))
        self.three(I,st,PA,g['X'][own],nm+' displacement from the centre',ins); self.three(I,st,PQ,g['wp' if bra else 'wq'],nm+' displacement to the weighted centre',ins)
        self.operand(st,th[0],low(own),0,nn+1,I,ins,nm)
        if am[own]>1:
            self.scal(o2p,g['p' if bra else 'q'],nm+' 1/2p',I,ins); self.scal(aop,g['aop' if bra else 'aoq'],nm+' a/p',I,ins)
            self.operand(st,th[1],low(own,own),0,nn+1,I,ins,nm)
        if len(th)>2:
            if am[par]:
                self.scal(o2p,g['p' if bra else 'q'],nm+' 1/2p',I,ins); self.scal(aop,g['aop' if bra else 'aoq'],nm+' a/p',I,ins)
                self.operand(st,th[2],low(own,par),0,nn+1,I,ins,nm)
            for w,t in zip(oth,th[3:]):
                if am[w]: self.scal(o2pq,g['pq'],nm+' 1/2(p+q)',I,ins); self.operand(st,t,low(own,w),0,nn+1,I,ins,nm)
        self.output(st,out,am,nn,None,I,ins,nm)
    def hstep(self,I,ins,st,own,am,AB,t1,t2,out,nm):
        g=self.Ty.geo[Z]; par=own^1; l2=list(am); l2[own]-=1; l1=list(l2); l1[par]+=1
        if am[own]<1: self.bad('%s: nothing to raise'%nm,I,ins); return
        self.three(I,st,AB,g['AB' if own<2 else 'CD'],nm+' displacement',ins)
        w1=self.operand(st,t1,tuple(l1),0,1,I,ins,nm,weight=True); w2=self.operand(st,t2,tuple(l2),0,1,I,ins,nm,weight=True)
        if not same_w(w1,w2): self.bad('%s: operands weighted %s and %s'%(nm,str(w1)[:60],str(w2)[:60]),I,ins)
        self.output(st,out,am,1,w1,I,ins,nm)
    def hrr(self,own):
        def h(I,ins,args,st):
            i,j,k,l,AB,t1,t2,out=args; am=(i,j,k,l)
            if not all(type(x) is int for x in am): raise AnalysisError('angular momenta of a step not resolved at %s'%I.loc(ins))
            self.hstep(I,ins,st,own,am,AB,t1,t2,out,'hrr_%s%s'%('IJKL'[own],am))
        return h
    def peek(self,st,p):
        """angular momenta of the block a pointer points to"""
        if type(p) is not Ptr or type(p.o) is not int: return None
        t=(self.tok.get(p.r) or {}).get(p.o)
        if t is not None: return t.am if p.o==t.base else None
        rs=st.mem.r.get(p.r); c=rs.g.get(0,{}).get(p.o) if rs else None; v=c[1] if c else None
        if type(v) is Poly and len(v.t)==1:
            for a,x in next(iter(v.t)):
                k=self.Ty.info.get(a)
                if k: return tuple(sum(e) for e in k[0])
    def hrr_named(self,own,a,b):
        """a separately emitted horizontal routine: target, the two sources in either order, displacement, columns"""
        par=own^1; o=(a,b) if own%2==0 else (b,a)
        def h(I,ins,args,st):
            out,s1,s2,AB,n=args; am=[0]*4; low=[0]*4; nm='HRR_%s_%s_%s'%('IJKL'[own],LET[a],LET[b])
            x,y=self.peek(st,s1),self.peek(st,s2)
            if x is None or y is None: self.bad('%s: a source does not start a block of integrals'%nm,I,ins); return
            am=list(x); am[own],am[par]=o
            l2=list(am); l2[own]-=1
            if x==tuple(l2): s1,s2=s2,s1
            rest=1
            for w in range(4):
                if w not in(own,par): rest*=nc(am[w])
            if n!=rest: self.bad('%s: told %s columns, the block of %s has %d'%(nm,n,tuple(am),rest),I,ins)
            self.hstep(I,ins,st,own,tuple(am),AB,s1,s2,out,nm)
        return h
def verify(Q,name,mod=None,deriv=None,contracts=True):
    """-> (problems, stats) for a directly computing routine"""
    import quartet
    am,der=quartet.am_name(name); mod=mod or Q.module(name)
    if quartet.other_kernel(mod,name): return None,{}
    C=Modular(Q.lay,1,[1],[1],der=Q.der,simple=True); mods=[m for m in Q.mods]
    I=C.go(mods,mod,name,contracts)
    prob=[(l,m) for m,l in C.prob]
    flat,oth=C.outputs(); comp=components(am); n=len(comp)*(12 if der else 1); miss=set(); nb=0; Ty=C.Ty
    def say(o,what):
        nonlocal nb
        nb+=1
        if nb<=3: prob.append((C.where(o),what))
    if not der:
        for k,e in enumerate(comp):
            v=flat.get(8*k)
            if v is None or not same(v,Ty.theta(e,0,Z)): say(8*k,'output %d should be the integral over %s, is %s'%(k,e,str(v)[:160]))
    else:
        from kern import up
        W=[C.P['v']['alpha2'][0],C.P['v']['beta2'][0],C.Q['v']['alpha2'][0],C.Q['v']['beta2'][0]]
        for k,e in enumerate(comp):
            for d in range(3):
                ref=[]
                for w in range(4):
                    r=mul(W[w],Ty.theta(up(e,w,d),0,Z))
                    if e[w][d]: r=sub(r,scale(Ty.theta(up(e,w,d,-1),0,Z),e[w][d]))
                    ref.append(r)
                for w in range(4):
                    o=8*(12*k+3*w+d); v=flat.get(o)
                    if v is not None and v==ref[w]: continue
                    x=[ref[y] for y in range(4) if y!=w]
                    if v is not None and v==neg(add(add(x[0],x[1]),x[2])): miss.add(w); continue
                    say(o,'output %d should be the derivative with respect to %s of centre %s of the integral over %s, is %s'%(12*k+3*w+d,'xyz'[d],'ABCD'[w],e,str(v)[:160]))
    if len(miss)>1: prob.append(('','centres %s are all formed from the other three'%sorted(miss)))
    ex=[o for o in flat if o>=8*n]
    if ex or oth: prob.append(('','writes outside the output block: %s'%ex[:3]))
    if C.over: prob.append((C.over[0][3],'access outside an object: %s'%(C.over[0],)))
    if C.illegal: prob.append(('','writes to its arguments: %s'%C.illegal[:2]))
    if C.ret!=1: prob.append(('','returns %s for one shell quartet'%str(C.ret)[:60]))
    return prob,dict(n=n,wtop=C.wtop,instr=I.ninstr,steps=C.nstep)
GEN=('-ve','0','-vg','0','-he','0','-hg','0')
def emit(Q,am,der,opt=GEN):
    """one routine as the generator emits it for these options"""
    import build, gen, os
    from quartet import name_of
    nm=name_of(am,der); d=build.tmp()+'/hi_%s_%s'%(nm,'_'.join(opt)); os.makedirs(d,exist_ok=True); f=d+'/'+nm+'.c'
    build.sh([gen.generator()+('/ostei_deriv1_generator' if der else '/ostei_generator'),'-q']+[str(x) for x in am]+['-o',f,'-oh',d+'/h.h']+list(opt))
    return nm,build.module(f,Q.inc)
def job(j,contracts=True):
    """(QLib, name) or (QLib, am, der)"""
    if len(j)==2: return verify(j[0],j[1],contracts=contracts)
    nm,m=emit(*j); return verify(j[0],nm,m,contracts=contracts)
def amd(j):
    import quartet
    return quartet.am_name(j[1]) if len(j)==2 else j[1:3]
def cost(am,der):
    x=size(am)*(12 if der else 1)
    return x*(6 if der else 1)+size(am)*sum(am)
def check_all(c,jobs):
    """-> [(job, result, error)]. A step that does not meet its contract condemns a routine only if following the step's own code
    does as well for the smallest such routine: otherwise the routines agree on another convention, and are followed in full."""
    import quartet
    def go(js,contracts=True):  # indices travel between processes, the compiled modules do not
        return [(js[n],r,e) for n,r,e,dt in quartet.pool(range(len(js)),lambda n:job(js[n],contracts))]
    jobs=sorted(jobs,key=lambda j:-cost(*amd(j))); res=go(jobs)
    fail=[x for x in res if x[2] or (x[1][0])]
    if not fail: return res
    fail.sort(key=lambda x:cost(*amd(x[0]))); small=[x[0] for x in fail[:3] if cost(*amd(x[0]))<2e5]
    pl=go(small,False)
    if not pl or any(e or r[0] for j,r,e in pl): return res
    ok=[x for x in res if not(x[2] or x[1][0])]; todo=[x[0] for x in fail if cost(*amd(x[0]))<1e6]
    c.count('large routines left out: steps follow another convention',len(fail)-len(todo))
    return ok+go(todo[::-1],False)
def run(c,jobs,what,tag):
    """report the compositional analysis of many routines under check c"""
    import quartet, time, sys
    t0=time.time()
    for j,r,err in check_all(c,jobs):
        am,der=amd(j); nm=quartet.name_of(am,der); loc='%s/%s.c'%(tag,nm); key='%s:steps'%nm
        if err: c.violation(key,'the routine cannot be followed: %s'%err,loc); continue
        prob,st=r
        if prob is None: c.count('permutation wrappers (C11)'); continue
        c.count('programs'); c.count('recurrence steps checked against their contract',st['steps']); c.count('IR instructions interpreted',st['instr']); c.count(what,st['n'])
        if len(c.units)<600: c.units.append('%s:%s'%(tag,nm))
        c.nob+=st['n']+st['steps']; c.nok+=st['n']+st['steps']-len(prob); c.nob-=len(prob)
        for l,m in prob[:5]: c.violation(key,m,l or loc)
    print('  %s, step by step: %d routines %.1f s'%(tag,len(jobs),time.time()-t0)); sys.stdout.flush()
