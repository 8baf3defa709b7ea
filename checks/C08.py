"""C08: the general (table-driven) recurrence steps, by value analysis against the OS vertical and HGP horizontal recurrences."""
import _path, time, itertools
import build, report, shapes, gauss, dom
from dom import *
from absint import Interp, Mem, State, AnalysisError
from gauss import canon
S=build.REPO+'/skel'
FILES=('ostei/ostei_general_vrr.c','ostei/ostei_general_hrr.c','recur_lookup.c')
CENTER='IJKL'
def nc(l): return (l+1)*(l+2)//2 if l>=0 else 0
CAN={l:canon(l) for l in range(-2,20) if l>=0}
POSN={l:{e:i for i,e in enumerate(c)} for l,c in CAN.items()}
def dec(e,d,k=1): l=list(e); l[d]-=k; return tuple(l)
class Arr:
    """an input array [order][cartesians of 4 shells] of symbols; NULL when the family does not exist"""
    def __init__(self,mem,name,ams,norder,lanes,extra=0):
        self.ams=ams; self.ok=min(ams)>=0; self.n=1
        for a in ams: self.n*=nc(a)
        self.norder=norder; self.lanes=lanes; self.reg=None
        if not self.ok: self.ptr=0; return
        self.reg=Region(name,'in'); self.ptr=Ptr(self.reg,0)
        self.v=[sym('%s_%d'%(name,i)) for i in range(self.n*norder*lanes)]
        shapes.arr(mem,self.reg,self.v)
    def at(self,n,es,lane=0):
        i=0
        for a,e in zip(self.ams,es): i=i*nc(a)+POSN[a][e]
        return self.v[((n*self.n)+i)*self.lanes+lane]
def vec(mem,name,lanes,n=3):
    r=Region(name,'in'); v=[[sym('%s%d_%d'%(name,d,l)) for l in range(lanes)] for d in range(n)]
    shapes.arr(mem,r,[x for w in v for x in w]); return Ptr(r,0),v
class Mode:
    def __init__(self,c,vector,lanes,flags=()):
        inc=build.config_headers(vector); build.stub_ostei_config(inc)
        self.lanes=lanes; self.ms=[build.module(S+'/simint/'+f,[inc,S],flags=flags) for f in FILES]
        # the header's inline wrappers, called through a scratch translation unit
        import os
        f=os.path.join(build.tmp(),'wrap_%s.c'%vector)
        open(f,'w').write('#include "simint/ostei/ostei_general.h"\n'+''.join(
          'void w_vrr1_%s(int i,int n,SIMINT_DBLTYPE const*a,SIMINT_DBLTYPE const*b,const SIMINT_DBLTYPE*c,const SIMINT_DBLTYPE*d,SIMINT_DBLTYPE const*e,SIMINT_DBLTYPE const*f,SIMINT_DBLTYPE*g){ostei_general_vrr1_%s(i,n,*a,*b,c,d,e,f,g);}\n'
          'void w_vrr_%s(int i,int j,int k,int l,int n,SIMINT_DBLTYPE const*a,SIMINT_DBLTYPE const*b,SIMINT_DBLTYPE const*b2,const SIMINT_DBLTYPE*c,const SIMINT_DBLTYPE*d,SIMINT_DBLTYPE const*e,SIMINT_DBLTYPE const*f,SIMINT_DBLTYPE const*f3,SIMINT_DBLTYPE const*f4,SIMINT_DBLTYPE const*f5,SIMINT_DBLTYPE*g){ostei_general_vrr_%s(i,j,k,l,n,*a,*b,*b2,c,d,e,f,f3,f4,f5,g);}\n'%(x,x,x,x) for x in CENTER))
        self.wrap=build.module(f,[inc,S],flags=flags); self.ms.append(self.wrap)
    def fn(self,c,name):
        for m in self.ms:
            if name in m.functions: return m.functions[name]
        c.need(False,'%s not found'%name)
def call(c,M,name,mem,args):
    I=Interp(*M.ms); st=State(True,mem); I.call(M.fn(c,name),args,st); c.count('instructions',I.ninstr)
    return I,st
def compare(c,I,st,out,n,lanes,spec,key,name):
    """spec(i,lane) -> list of acceptable values (one per admissible recursion direction)"""
    rs=st.mem.r.get(out); cells=rs.g.get(0,{}) if rs else {}
    other=rs and [g for g in rs.g if g!=0]
    want={8*i for i in range(n*lanes)}
    flat={}
    for o,(sz,v) in cells.items():
        if type(v) is tuple:
            for q,x in enumerate(v): flat[o+8*q]=x
        else: flat[o]=v
    c.ob(set(flat)<=want and not other,key+':extent','%s writes outside its %d outputs (byte %s)'%(name,n,sorted(set(flat)-want)[:3]),name)
    for e in I.events:
        if e.kind in('store','memcpy','memset','havoc') and e.reg is not None and e.reg.kind in('in','global'): c.violation(key+':input','%s writes to %s'%(name,e.reg.name),I.loc(e.ins))
    for i in range(n):
        for q in range(lanes):
            x=flat.get(8*(i*lanes+q))
            if x is None: c.violation(key+':missing','output %d is never written'%i,name); return
            ws=spec(i,q)
            if any(equal(x,w) for w in ws): c.nob+=1; c.nok+=1
            else:
                c.violation(key+':%d'%i,'output %d%s: code %s; recurrence %s'%(i,' lane %d'%q if lanes>1 else '',str(x)[:200],str(ws[0])[:200]),name); return
    c.count('output components',n)
def vrr(c,M,own,am,num_n,null35=True,one=False):
    """one step on centre `own`; am: the four angular momenta of the output"""
    L=M.lanes; mem=Mem(); own_i=CENTER.index(own); par=own_i^1; others=[2,3] if own_i<2 else [0,1]
    low=lambda *q:tuple(a-sum(1 for x in q if x==i) for i,a in enumerate(am))
    nn=num_n+1
    th=[Arr(mem,'t1',low(own_i),nn,L),Arr(mem,'t2',low(own_i,own_i),nn,L)]
    if not one:
        # J, L: the partner's family comes first (theta2), the own one second (theta3)
        if own in 'JL': th=[th[0],Arr(mem,'t2',low(own_i,par),nn,L),Arr(mem,'t3',low(own_i,own_i),nn,L),Arr(mem,'t4',low(own_i,others[0]),nn,L),Arr(mem,'t5',low(own_i,others[1]),nn,L)]
        else: th+=[Arr(mem,'t3',low(own_i,par),nn,L),Arr(mem,'t4',low(own_i,others[0]),nn,L),Arr(mem,'t5',low(own_i,others[1]),nn,L)]
    sc=[]
    for s in ('o2p','aop','o2pq'):
        p,v=vec(mem,s,L,1); sc.append((p,v[0]))
    PQp,PQ=vec(mem,'apPQ',L); PAp,PA=vec(mem,'PA',L)
    out=Region('output','out')
    T2,T3=(th[2],th[1]) if own in 'JL' and not one else (th[1],th[2] if not one else None)
    ptrs=[t.ptr for t in th]
    if not null35:
        for i in (2,3,4):
            if not th[i].ok: r=Region('dummy%d'%i,'in'); ptrs[i]=Ptr(r,0)
    if one: name='ostei_general_vrr1_'+own; I,st=call(c,M,'w_vrr1_'+own,mem,[am[own_i],num_n,sc[0][0],sc[1][0],PQp,PAp]+ptrs+[Ptr(out,0)])
    else: name='ostei_general_vrr_'+own; I,st=call(c,M,'w_vrr_'+own,mem,list(am)+[num_n,sc[0][0],sc[1][0],sc[2][0],PQp,PAp]+ptrs+[Ptr(out,0)])
    comps=list(itertools.product(*[CAN[a] for a in am])); nco=len(comps)
    o2p,aop,o2pq=[s[1] for s in sc]
    def spec(i,q):
        n,ci=divmod(i,nco); es=comps[ci]; r=[]
        for d in range(3):
            if es[own_i][d]==0: continue
            def sub_(*who):
                l=list(es)
                for w in who: l[w]=dec(l[w],d)
                return l
            v=add(mul(PA[d][q],th[0].at(n,sub_(own_i),q)),mul(PQ[d][q],th[0].at(n+1,sub_(own_i),q)))
            e=es[own_i][d]-1
            if e>0: s=sub_(own_i,own_i); v=add(v,mul(scale(o2p[q],e),add(T2.at(n,s,q),mul(aop[q],T2.at(n+1,s,q)))))
            if not one:
                if es[par][d]: s=sub_(own_i,par); v=add(v,mul(scale(o2p[q],es[par][d]),add(T3.at(n,s,q),mul(aop[q],T3.at(n+1,s,q)))))
                for w,t in zip(others,(th[3],th[4])):
                    if es[w][d]: v=add(v,mul(scale(o2pq[q],es[w][d]),t.at(n+1,sub_(own_i,w),q)))
            r.append(v)
        return r
    key='%s:%s:n=%d%s%s'%(name,''.join(map(str,am)),num_n,'' if null35 else ':nonnull','' if L==1 else ':x%d'%L)
    compare(c,I,st,out,num_n*nco,L,spec,key,name)
    c.count('vrr steps')
def hrr(c,M,own,am):
    mem=Mem(); oi=CENTER.index(own); par=oi^1; first=oi%2==0
    l1=list(am); l1[oi]-=1; l1[par]+=1; l2=list(am); l2[oi]-=1
    t1,t2=Arr(mem,'t1',l1,1,1),Arr(mem,'t2',l2,1,1)
    ABp,AB=vec(mem,'AB',1); out=Region('output','out'); name='ostei_general_hrr_'+own
    I,st=call(c,M,name,mem,list(am)+[ABp,t1.ptr,t2.ptr,Ptr(out,0)])
    comps=list(itertools.product(*[CAN[a] for a in am]))
    def spec(i,q):
        es=comps[i]; r=[]
        for d in range(3):
            if not es[oi][d]: continue
            b=list(es); b[oi]=dec(b[oi],d); a=list(b); a[par]=dec(a[par],d,-1)
            x=mul(AB[d][0],t2.at(0,b)); r.append(sub(t1.at(0,a),x) if first else add(t1.at(0,a),x))
        return r
    compare(c,I,st,out,len(comps),1,spec,'%s:%s'%(name,''.join(map(str,am))),name)
    c.count('hrr steps')
def guard(c,key,f,*a,**k):
    try: f(*a,**k)
    except AnalysisError as e: c.violation(key+':undecided','value analysis cannot follow the step: %s'%e,key)
def run(c):
    M=Mode(c,'SCALAR',1); c.units+=list(FILES)+['ostei/ostei_general.h']
    top=18 if c.thorough else 13
    for own in CENTER:
        for i in range(1,top+1):
            am=[0,0,0,0]; am[CENTER.index(own)]=i
            guard(c,'vrr1_%s:%d'%(own,i),vrr,c,M,own,tuple(am),2 if i<8 else 1,one=True)
    lim=5 if not c.thorough else 7
    for own in CENTER:
        oi=CENTER.index(own)
        for am in itertools.product(range(0,5),repeat=4):
            if am[oi]<1 or sum(am)>lim: continue
            n=1
            for a in am: n*=nc(a)
            if n>(700 if not c.thorough else 4000): continue
            guard(c,'vrr_%s:%s'%(own,am),vrr,c,M,own,am,2)
        # the two-index family used most, to higher angular momentum
        for a,b in ((5,1),(4,3),(3,4),(1,5)) if not c.thorough else ((8,1),(6,2),(5,5),(2,7),(1,8)):
            for w in range(4):
                if w==oi: continue
                am=[0,0,0,0]; am[oi]=a; am[w]=b
                guard(c,'vrr_%s:%s'%(own,am),vrr,c,M,own,tuple(am),2)
        for am in ((2,0,2,0),(2,0,1,0),(0,2,0,2),(2,2,0,0),(1,0,0,2)):
            am=tuple(am[(x+oi)%4] for x in range(4))
            if am[oi]<1: continue
            guard(c,'vrr_%s:%s'%(own,am),vrr,c,M,own,am,3,null35=False)
        for am in itertools.product(range(0,4),repeat=4):
            if am[oi]<1 or sum(am)>lim: continue
            guard(c,'hrr_%s:%s'%(own,am),hrr,c,M,own,am)
        for a,b in ((5,3),(3,5),(1,6)):
            am=[0,0,0,0]; am[oi]=a; am[oi^1]=b; am[(oi+2)%4]=1
            guard(c,'hrr_%s:%s'%(own,am),hrr,c,M,own,tuple(am))
        if c.verbose: print(own,'%.1f'%(time.time()-c.t0))
    # the same steps in a vector build: every lane independently
    V=Mode(c,'AVX2',4,('-mavx2','-mfma'))
    for own in CENTER:
        oi=CENTER.index(own)
        for am in ((2,0,1,0),(1,1,1,1),(2,1,0,1)):
            am=tuple(am[(x-oi)%4] for x in range(4))
            guard(c,'vrr_%s:%s:avx2'%(own,am),vrr,c,V,own,am,2)
        am=[0]*4; am[oi]=3
        guard(c,'vrr1_%s:3:avx2'%own,vrr,c,V,own,tuple(am),2,one=True)
    c.sample('every output of every step: PA theta1[n] + (a/p)PQ theta1[n+1] + ..., any direction whose exponent is positive')
    c.assume+=['theta3/theta5 etc. are NULL exactly when the family does not exist, or any pointer (both are analysed where the code distinguishes them)','angular momenta and order counts above the enumerated ones are covered by the uniformity of the loops only']
    c.atleast('vrr steps',200); c.atleast('hrr steps',100)
if __name__=='__main__':
    report.main('C08','proof','Each general VRR and HRR routine, and each inline wrapper, is abstractly interpreted with symbolic inputs for enumerated angular momenta; every output element must equal the Obara-Saika (vertical) or Head-Gordon-Pople (horizontal) recurrence in some admissible direction, exactly, and nothing else may be written. The recursion tables are read from their initialisers.',run)
