"""C03: construction of shell-pair batches, by value analysis of shell.c with symbolic shells and enumerated shapes."""
import _path, itertools, random, time
import build, report, shapes, dom, msp, absint
from dom import *
from msp import Sh, Plan, PRIM, PAIR, getf, rd
from absint import Interp, Mem, State, AnalysisError
S=build.REPO+'/skel'
class Env:
    def __init__(self,c,vector,lanes,flags,maxder=1):
        self.L=lanes; inc=build.config_headers(vector,extra=('STUB%d'%maxder,)); build.stub_ostei_config(inc,maxder=maxder)
        self.der=maxder>0; self.name=vector+('' if maxder else '/no derivatives')
        self.m=[build.module(S+'/simint/shell/shell.c',[inc,S],flags=flags)]
        skip=() if self.der else ('alpha2','beta2')
        self.msp=shapes.layout('simint_multi_shellpair',[f for f in shapes.MSP if f not in skip],[inc,S]); self.sh=shapes.layout('simint_shell',shapes.SHELL,[inc,S])
        self.prim=[f for f in PRIM if f not in skip]
        self.align=lanes*8
class Run:
    """an abstract heap with one multi-shell-pair object"""
    def __init__(self,c,E,key):
        self.c=c; self.E=E; self.key=key; self.mem=Mem(); self.P=Region('P','in'); self.n=0; self.I=None; self.ev=[]
    def fn(self,n):
        for m in self.E.m:
            if n in m.functions: return m.functions[n]
        self.c.need(False,'%s not found'%n)
    def call(self,n,*args,ranks=None):
        I=Interp(*self.E.m); self.I=I; I.track_alloca=True; self.ranks=list(ranks) if ranks else None; self.screened=[]; self.rmax=0
        for h in ('simint_primscreen','simint_primscreen_schwarz','simint_primscreen_fastschwarz'): I.hooks[h]=self.primscreen
        over=self.over=[]
        def st_(I,mem,p,size,v,st,ins):
            if p.r.kind in('heap','alloca') and type(p.r.size) is int and type(p.o) is int and (p.o<0 or p.o+size>p.r.size): over.append((p,size,I.loc(ins)))
        I.store_hook=st_
        s=State(True,self.mem); I.call(self.fn(n),list(args),s); self.mem=s.mem; self.ev+=I.events
        self.c.count('instructions',I.ninstr)
        for p,size,loc in over[:2]: self.c.violation(self.key+':bounds','%s writes byte %s of a %s byte block'%(n,p.o,p.r.size),loc)
        return I
    def primscreen(self,I,ins,args,st):
        A,B,out=args[0],args[1],args[2]; E=self.E
        na=rd(st.mem,I,A,E.sh['nprim'][0],4,'i'); nb=rd(st.mem,I,B,E.sh['nprim'][0],4,'i')
        same=rd(st.mem,I,A,E.sh['ptr'][0],8,'p')==rd(st.mem,I,B,E.sh['ptr'][0],8,'p') and na==nb
        n=na*(na+1)//2 if same else na*nb
        if not self.ranks or n!=len(self.ranks[0]): raise AnalysisError('the screening routine is called for %s primitive pairs when %s were due'%(n,self.ranks and len(self.ranks[0])))
        r=self.ranks.pop(0)
        self.screened.append((out,n))
        if out!=0:
            for i,x in enumerate(r): I.store(st.mem,I.ptradd(out,8*i),x,('f',64),ins.fn.mod,st,ins)
        self.rmax=max([self.rmax]+list(r))
        return max(r+[0])
    def init(self): return self.call('simint_initialize_multi_shellpair',Ptr(self.P,0))
    def pairs(self,prs,name='AB'):
        r=Region(name,'in')
        for k,(A,B) in enumerate(prs): A.put(self.mem,self.E.sh,r,2*k*self.E.sh['sizeof']); B.put(self.mem,self.E.sh,r,(2*k+1)*self.E.sh['sizeof'])
        return Ptr(r,0)
    def list(self,shs,name):
        r=Region(name,'in')
        for k,A in enumerate(shs): A.put(self.mem,self.E.sh,r,k*self.E.sh['sizeof'])
        return Ptr(r,0)
def content(c,R,prs,ents,method,key,rmax=None,screens=None,where='P'):
    """P must hold exactly the pairs given. ents: per pair, list of entries (field -> value); screens: per pair list of screening values"""
    E=R.E; mem=R.mem; P=R.P; g=lambda f:getf(mem,P,E.msp,f)
    L=Plan([len(e) for e in ents],E.L); bad=[]
    def want(f,v):
        x=g(f)
        if not (x is not None and equal(x,v)): bad.append((f,'%s is %s, expected %s'%(f,str(x)[:80],str(v)[:80])))
    want('nprim',sum(len(e) for e in ents)); want('nshell12',len(prs)); want('nshell12_clip',len(prs))
    if prs: want('am1',prs[0][0].am); want('am2',prs[0][1].am)
    fields=E.prim+(['screen'] if method else [])
    if not method and g('screen')!=0: bad.append(('screen','screen is not NULL without screening'))
    ptr={f:g(f) for f in fields+PAIR+['nprim12']}
    for f,p in ptr.items():
        if type(p) is not Ptr or type(p.o) is not int: bad.append((f,'%s does not point into storage: %s'%(f,str(p)[:60]))); return bad
    # disjoint, inside the owned block, aligned
    ext=sorted((p.r.name,id(p.r),p.o,p.o+(8*L.total if f in fields else 8*len(prs) if f in PAIR else 4*len(prs)),f,p.r) for f,p in ptr.items())
    for a,b in zip(ext,ext[1:]):
        if a[1]==b[1] and a[3]>b[2] and b[3]>b[2]: bad.append((b[4],'arrays %s and %s overlap'%(a[4],b[4])))
    for x in ext:
        if type(x[5].size) is int and x[3]>x[5].size: bad.append((x[4],'array %s ends at byte %d of a %d byte block'%(x[4],x[3],x[5].size)))
        if x[4] in fields and E.align>8 and x[2]%E.align: bad.append((x[4],'array %s starts at byte %d, not a multiple of %d'%(x[4],x[2],E.align)))
    for k,(A,B) in enumerate(prs):
        v=rd(mem,R.I,ptr['nprim12'],4*k,4,'i')
        if v!=len(ents[k]): bad.append(('nprim12','nprim12[%d] is %s, expected %d'%(k,v,len(ents[k]))))
        for d,f in enumerate(PAIR):
            v=rd(mem,R.I,ptr[f],8*k,8,'d'); w=sub(A.xyz[d],B.xyz[d])
            if v is None or not equal(v,w): bad.append((f,'%s[%d] is %s, expected %s'%(f,k,str(v)[:80],str(w)[:80])))
        left={}
        for q,e in enumerate(ents[k]): left.setdefault(key_(e),[]).append(q)
        for i in range(L.start[k],L.start[k]+len(ents[k])):
            al=rd(mem,R.I,ptr['alpha'],8*i,8,'d'); got={f:rd(mem,R.I,ptr[f],8*i,8,'d') for f in E.prim}
            m=[q for q,e in enumerate(ents[k]) if q in sum(left.values(),[]) and al is not None and equal(al,e['alpha'])] if al is not None else []
            if not m: bad.append(('alpha','pair %d, entry %d: exponent sum %s belongs to no (remaining) primitive pair'%(k,i,str(al)[:80]))); continue
            for q in m:
                e=ents[k][q]; wr=[f for f in E.prim if got[f] is None or not equal(got[f],e[f])]
                if method and screens is not None:
                    sv=rd(mem,R.I,ptr['screen'],8*i,8,'d')
                    if sv is None or not equal(sv,screens[k][q]): wr.append('screen'); got['screen']=sv; e=dict(e,screen=screens[k][q])
                if not wr: break
            if wr: bad.append((wr[0],'pair %d, entry %d: %s is %s, expected %s'%(k,i,wr[0],str(got[wr[0]])[:160],str(e[wr[0]])[:160])))
            for s in left.values():
                if q in s: s.remove(q)
    for i in L.pad:
        for f in fields:
            v=rd(mem,R.I,ptr[f],8*i,8,'d')
            if not isnum(v) or (f=='prefac' and v!=0) or (f=='alpha' and v<=0): bad.append(('pad:'+f,'padding entry %d: %s is %s'%(i,f,str(v)[:80])))
    sm=g('screen_max')
    if method and rmax is not None and not (sm is not None and equal(sm,rmax)): bad.append(('screen_max','screen_max is %s; the largest screening value is %s'%(str(sm)[:60],rmax)))
    if not method and rmax is None and not(isnum(sm) and sm>=1e30): bad.append(('screen_max','without screening values screen_max must never screen a batch out, it is %s'%str(sm)[:60]))
    c.count('fields compared',len(fields)*L.total+7+4*len(prs)); c.count('shapes')
    return bad
def key_(e): return e['alpha'].fp if type(e['alpha']) is Poly else hash(e['alpha'])
def report_(c,key,bad,loc='simint_fill_multi_shellpair2'):
    c.nob+=1
    if not bad: c.nok+=1
    seen=set()
    for f,msg in bad:
        if f in seen: continue
        seen.add(f); c.violation(key+':'+f,msg,loc)
        if len(seen)>3: break
def mkshells(spec,E):
    """spec: list of (nA,nB) or (n,) for a shell paired with itself"""
    prs=[]
    for k,s in enumerate(spec):
        if len(s)==1: A=Sh('s%d'%k,s[0],2); prs.append((A,A))
        else: prs.append((Sh('a%d'%k,s[0],2),Sh('b%d'%k,s[1],1)))
    if any(len(s)==1 for s in spec):
        for A,B in prs: A.am=B.am=2
    return prs
def fill(c,E,spec,method,how,ranks=None,again=None):
    key='%s:%s:%s%s'%(how,E.name,','.join('x'.join(map(str,s)) for s in spec),':screen' if method else ''); 
    if len(key)>90: key=key[:60]+'..#%d'%len(spec)
    R=Run(c,E,key); prs=mkshells(spec,E)
    try:
        R.init()
        if again: # the object held another batch before
            pr2=[(Sh('old%d'%k,s[0],0),Sh('olb%d'%k,s[-1],0)) for k,s in enumerate(again)]
            R.call('simint_create_multi_shellpair2',len(pr2),R.pairs(pr2,'OLD'),Ptr(R.P,0),0)
        AB=R.pairs(prs); ents=[msp.entries(A,B) for A,B in prs]
        rk=[list(r) for r in ranks] if ranks else None; keep=[list(r) for r in ranks] if ranks else None
        if how=='create2': R.call('simint_create_multi_shellpair2',len(prs),AB,Ptr(R.P,0),method,ranks=rk)
        else:
            R.call('simint_allocate_multi_shellpair2',len(prs),AB,Ptr(R.P,0),method); R.call('simint_fill_multi_shellpair2',len(prs),AB,Ptr(R.P,0),method,ranks=rk)
        if R.ranks: raise AnalysisError('the screening routine was not called once per pair')
        bad=content(c,R,prs,ents,method,key,rmax=max([x for r in keep for x in r]) if ranks else None,screens=keep)
    except AnalysisError as e: bad=[('undecided','value analysis cannot follow the construction: %s'%e)]
    report_(c,key,bad)
def lists(c,E,nas,nbs,how,method=0,shared=False):
    key='%s:%s:%s/%s%s'%(how,E.name,nas,nbs,':shared' if shared else '')
    R=Run(c,E,key); As=[Sh('A%d'%i,n,1) for i,n in enumerate(nas)]; Bs=As if shared else [Sh('B%d'%i,n,2) for i,n in enumerate(nbs)]
    prs=[(a,b) for a in As for b in Bs]
    try:
        R.init(); a=R.list(As,'Alist'); b=a if shared else R.list(Bs,'Blist')
        ents=[msp.entries(x,y) for x,y in prs]
        rk=[list(range(1,len(e)+1)) for e in ents] if method else None; keep=[list(r) for r in rk] if rk else None
        if how=='create': R.call('simint_create_multi_shellpair',len(As),a,len(Bs),b,Ptr(R.P,0),method,ranks=rk)
        else:
            R.call('simint_allocate_multi_shellpair',len(As),a,len(Bs),b,Ptr(R.P,0),method); R.call('simint_fill_multi_shellpair',len(As),a,len(Bs),b,Ptr(R.P,0),method,ranks=rk)
        bad=content(c,R,prs,ents,method,key,rmax=max(x for r in keep for x in r) if keep else None,screens=keep)
    except AnalysisError as e: bad=[('undecided','value analysis cannot follow the construction: %s'%e)]
    report_(c,key,bad,'simint_fill_multi_shellpair')
def orders(n):
    """all weak orders of n items, as rank lists"""
    seen=set()
    for t in itertools.product(range(1,n+1),repeat=n):
        if set(t)==set(range(1,max(t)+1)): yield list(t)
def run(c):
    c.units.append('simint/shell/shell.c')
    E1=Env(c,'SCALAR',1,()); E2=Env(c,'SSE',2,('-msse4.2',)); E4=Env(c,'AVX2',4,('-mavx2','-mfma')); E0=Env(c,'AVX2',4,('-mavx2','-mfma'),0); E8=Env(c,'COMMONAVX512',8,('-mavx512f',))
    rnd=random.Random(7)
    for E in (E1,E2,E4,E0,E8):
        NS=2*E.L
        one=[[(1,1)],[(1,)],[(2,)],[(3,)],[(2,3)],[(3,1)],[(4,)]]
        cnt=[[(1,1)]*k for k in (2,3,NS-1,NS,NS+1,2*NS,2*NS+1)]+[[(1,)]*k for k in (NS-1,NS+1)]
        mix=[[rnd.choice([(1,1),(1,2),(2,1),(2,2),(3,1),(1,),(2,),(3,)]) for _ in range(k)] for k in (2,3,NS-1,NS,NS+1,NS+2,2*NS,2*NS+1)]
        todo=one+cnt+mix
        if E in (E1,E0): todo=one[1:4]+mix[:5]
        if E is E8 and not c.thorough: todo=one[3:5]+[cnt[1],cnt[3]]+mix[4:5]
        if c.thorough: todo+=[[rnd.choice([(1,1),(1,2),(2,1),(2,2),(3,1),(3,2),(1,),(2,),(3,),(4,)]) for _ in range(rnd.randint(1,3*NS+1))] for _ in range(150)]
        for s in todo: fill(c,E,s,0,'create2')
        fill(c,E,mix[4],0,'allocate2+fill2'); fill(c,E,[(2,),(1,2)],0,'create2',again=[(1,1)]); fill(c,E,[(1,2),(1,1)],0,'create2',again=[(3,3)]*(NS+1))
        for nas,nbs in (([1,2],[2]),([2],[1,3]),([1,2,1],[2,1]),([1]*3,[1]*3)): lists(c,E,nas,nbs,'create')
        lists(c,E,[1,2,1],None,'create',shared=True); lists(c,E,[2,1],None,'allocate+fill',shared=True); lists(c,E,[1,2],[2,1],'create',1)
        lists(c,E,[1,2],[2,1],'allocate+fill')
        if c.verbose: print(E.name,'%.1f'%(time.time()-c.t0))
    # screening values stay with their primitives, for every relative order of the values
    for E in (E2,E4):
        for n,specs in ((1,[(1,1)]),(2,[(1,2)]),(3,[(2,)]),(4,[(2,2)])):
            for r in orders(n):
                if E is E4 and n==4 and rnd.random()<0.6 and not c.thorough: continue
                fill(c,E,specs,1,'create2',ranks=[r])
        for _ in range(30 if not c.thorough else 200):
            spec=[rnd.choice([(1,1),(1,2),(2,2),(2,),(3,),(3,2)]) for _ in range(rnd.randint(2,2*E.L*2+1))]
            rk=[[rnd.randint(1,6) for _ in range(s[0]*(s[0]+1)//2 if len(s)==1 else s[0]*s[1])] for s in spec]
            fill(c,E,spec,rnd.choice((1,2)),'create2',ranks=rk)
        if c.thorough:
            for r in orders(5): fill(c,E,[(1,5)],1,'create2',ranks=[r])
    fill(c,E0,[(2,2),(2,),(1,1)],2,'create2',ranks=[[2,4,1,3],[3,1,2],[9]])
    c.sample('every field of every entry of every pair, for shells with symbolic exponents, coefficients and centres')
    c.assume+=['screening values are only compared and moved by the construction (any order of up to four values is analysed exhaustively)','shapes (numbers of pairs and primitives) beyond those enumerated are covered by the uniformity of the loops only','memory allocation succeeds']
    c.atleast('shapes',150)
if __name__=='__main__':
    report.main('C03','proof','The construction of multi-shell-pairs is abstractly interpreted with symbolic shells over enumerated shapes (numbers of pairs around every batch boundary, mixed primitive counts, shells paired with themselves, reused objects, every weak order of screening values up to four) for vector lengths 1, 2, 4 and 8; every stored field must equal the Gaussian product data of exactly one primitive pair, padding must be neutral, arrays disjoint, aligned and inside the owned block.',run)
