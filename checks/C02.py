"""C02: nuclear-attraction integrals by value analysis of the entry point."""
import _path
import build, report, shapes, gauss, dom, absint
from dom import *
from absint import Interp, Mem, State, AnalysisError
from C01 import modules, geo, check_outputs
S=build.REPO+'/skel'
dom.CONGRUENT.add('boys')
STACK=1<<20
class BadBoys(Exception): pass
def boys_hook(log):
    def h(I,ins,args,st):
        F,T,n=args
        if type(T) is tuple: T=T[0]
        if type(n) is not int: raise AnalysisError('Boys order not resolved at %s'%I.loc(ins))
        log.append((I.loc(ins),T,n))
        for m in range(n+1): I.store(st.mem,I.ptradd(F,8*m),func('boys',m,T),('f',64),ins.fn.mod,st,ins)
        return None
    return h
def hermite_R(F,p,PC):
    """R^n_{tuv} by the standard Hermite Coulomb recursion"""
    memo={}
    m2p=scale(p,-2)
    def R(n,t,u,v):
        k=(n,t,u,v); r=memo.get(k)
        if r is not None: return r
        if t<0 or u<0 or v<0: return 0
        if t+u+v==0: r=mul(ipow(m2p,n),F(n)) if n else F(0)
        else:
            d=0 if t else (1 if u else 2); l=[t,u,v]; l[d]-=1; q=l[d]
            r=mul(PC[d],R(n+1,*l))
            if q>0:
                l2=list(l); l2[d]-=1
                r=add(r,scale(R(n+1,*l2),q))
        memo[k]=r
        return r
    return R
def prim(a,b,p,cc,D,PC,T):
    """value of one primitive pair and one centre: 2 pi/p exp(-mu AB^2) sum E E E R"""
    PA,PB,_=geo(a,b,p,D)
    ones=[gauss.One(PA[d],PB[d],p,b) for d in range(3)]
    r2=add(add(mul(D[0],D[0]),mul(D[1],D[1])),mul(D[2],D[2]))
    pre=mul(mul(cc,scale(mul(PI(),inv(p)),2)),exp_(neg(mul(mul(mul(a,b),inv(p)),r2))))
    R=hermite_R(lambda n:func('boys',n,T),p,PC)
    def val(e1,e2):
        s=0
        for t in range(e1[0]+e2[0]+1):
            x=ones[0].herm(e1[0],e2[0],t)
            for u in range(e1[1]+e2[1]+1):
                xy=mul(x,ones[1].herm(e1[1],e2[1],u))
                for v in range(e1[2]+e2[2]+1):
                    s=add(s,mul(mul(xy,ones[2].herm(e1[2],e2[2],v)),R(0,t,u,v)))
        return mul(pre,s)
    return val
def call(c,ms,am,mem,args,log):
    fn=None
    for m in ms:
        if 'simint_compute_potential' in m.functions: fn=m.functions['simint_compute_potential']
    c.need(fn is not None,'simint_compute_potential not found')
    I=Interp(*ms); I.hooks['boys_F_split']=boys_hook(log); I.track_alloca=False
    st=State(True,mem)
    over=[]
    # every access to local storage must lie inside it
    def chk(I,mem,p,size,ins,what):
        if p.r.kind in('alloca','heap') and type(p.r.size) is int and type(p.o) is int and (p.o<0 or p.o+size>p.r.size): over.append((what,p.r.name,p.o,p.r.size,I.loc(ins)))
    I.store_hook=lambda I,mem,p,size,v,st,ins: chk(I,mem,p,size,ins,'write')
    I.load_hook=lambda I,mem,p,size,ty,ins: chk(I,mem,p,size,ins,'read')
    I.call(fn,args,st)
    c.count('instructions',I.ninstr)
    stack=sum(a for a in I.allocas.values() if type(a) is int)
    c.ob(stack<=STACK,'potential:(%d,%d):stack'%am,'the routine keeps %d bytes of work arrays on the stack'%stack,'simint_compute_potential','stack use')
    return I,st,over
def single(c,ms,lay,am1,am2):
    X=[sym('A'+d) for d in 'xyz']; D=[sym('D'+d) for d in 'xyz']; Q=[sym('Q'+d) for d in 'xyz']
    p=shapes.pos('p'); a=shapes.pos('a'); b=sub(p,a); c1,c2,Z=sym('c1'),sym('c2'),sym('Z'); mem=Mem()
    B=[add(x,d) for x,d in zip(X,D)]
    s1,_,_=shapes.shell(mem,lay,'sh1',am1,1,X,[a],[c1]); s2,_,_=shapes.shell(mem,lay,'sh2',am2,1,B,[b],[c2])
    C=[sub(add(x,mul(mul(b,d),inv(p))),q) for x,d,q in zip(X,D,Q)]
    out=Region('integrals','out'); cs=[]
    for nm,v in zip(('Z','x','y','z'),[Z]+C):
        r=Region(nm,'in'); shapes.arr(mem,r,[v]); cs.append(Ptr(r,0))
    log=[]
    I,st,over=call(c,ms,(am1,am2),mem,[1]+cs+[Ptr(s1,0),Ptr(s2,0),Ptr(out,0)],log)
    c.need(log,'the Boys function is not called from the potential code')
    T=mul(p,add(add(mul(Q[0],Q[0]),mul(Q[1],Q[1])),mul(Q[2],Q[2])))
    val=prim(a,b,p,mul(mul(c1,c2),Z),D,Q,T)
    bad,n=check_outputs(c,I,out,st,'potential',am1,am2,lambda x,y:neg(val(x,y)),'','simint_compute_potential')
    for w,r,o,sz,loc in over[:3]: bad.append(('potential:(%d,%d):storage'%(am1,am2),'%s of intermediate storage %s at byte %d, size %s'%(w,r,o,sz),loc))
    return bad,n+1
def multi(c,ms,lay,am1,am2,nc,n1,n2):
    D=[sym('D'+d) for d in 'xyz']; mem=Mem()
    def cnt(n,nm):
        if n is not None: return n
        q=sym(nm); NONNEG.add(next(iter(q.t))[0][0]); return q
    N1,N2,NC=cnt(n1,'nprim1'),cnt(n2,'nprim2'),cnt(nc,'ncenter')
    L=lambda n,nm,pos: None if n is None else [(shapes.pos if pos else sym)(nm+str(i)) for i in range(n)]
    al1,al2,co1,co2=L(n1,'a',1),L(n2,'b',1),L(n1,'c',0),L(n2,'d',0)
    s1,ra,rc=shapes.shell(mem,lay,'sh1',am1,N1,[0,0,0],al1,co1); s2,rb,rd=shapes.shell(mem,lay,'sh2',am2,N2,D,al2,co2)
    out=Region('integrals','out'); rs=[Region(nm,'in') for nm in('Z','x','y','z')]
    cv=[L(nc,nm,0) for nm in('Z','Cx','Cy','Cz')]
    for r,v in zip(rs,cv):
        if v is not None: shapes.arr(mem,r,v)
    log=[]
    I,st,over=call(c,ms,(am1,am2),mem,[NC]+[Ptr(r,0) for r in rs]+[Ptr(s1,0),Ptr(s2,0),Ptr(out,0)],log)
    def at(a,b,c1,c2,Z,C):
        p=add(a,b); PC=[sub(mul(mul(b,d),inv(p)),x) for d,x in zip(D,C)]
        T=mul(p,add(add(mul(PC[0],PC[0]),mul(PC[1],PC[1])),mul(PC[2],PC[2])))
        return prim(a,b,p,mul(mul(c1,c2),Z),D,PC,T)
    v=[new_atom('sym','$'+x,'$'+x) for x in 'ijk']
    for x in v: NONNEG.add(x)
    o=[Poly({((x,1),):8}) for x in v]
    ld=lambda r,q: ld_atom(r,0,q,'d')
    if n1 is None: val=at(ld(ra,o[0]),ld(rb,o[1]),ld(rc,o[0]),ld(rd,o[1]),ld(rs[0],o[2]),[ld(r,o[2]) for r in rs[1:]])
    def spec(x,y):
        if n1 is None: return neg(mksum(NC,v[2],mksum(N1,v[0],mksum(N2,v[1],val(x,y)))))
        s=0
        for i in range(n1):
            for j in range(n2):
                for k in range(nc): s=sub(s,at(al1[i],al2[j],co1[i],co2[j],cv[0][k],[cv[q][k] for q in(1,2,3)])(x,y))
        return s
    return check_outputs(c,I,out,st,'potential',am1,am2,spec,':nprim,ncenter=%s'%('any' if n1 is None else '%dx%dx%d'%(n1,n2,nc)),'simint_compute_potential')
def run(c):
    ms,lay,inc=modules(c)
    A=4; tot=7 if not c.thorough else 9
    if c.thorough: A=5
    for am1 in range(A+1):
        for am2 in range(A+1):
            if am1+am2>tot: continue
            bad,n=single(c,ms,lay,am1,am2)
            c.count('shell-pair types'); c.count('output components',n-2); c.nob+=n-len(bad); c.nok+=n-len(bad)
            for b in bad: c.violation(*b)
            if c.verbose: print(am1,am2,len(bad),'%.1f'%(time.time()-c.t0))
    for am1,am2 in ((0,0),(1,0)):
        try: bad,n=multi(c,ms,lay,am1,am2,None,None,None)
        except AnalysisError as e: bad,n=[('x',str(e),'')],1
        if bad:
            if c.verbose: print('symbolic counts undecided',bad[0])
            c.count('contraction by enumeration'); bad=[];n=0
            for q in ((1,1,1),(2,1,1),(1,2,1),(1,1,2),(2,2,2)):
                b,k=multi(c,ms,lay,am1,am2,q[2],q[0],q[1]); bad+=b; n+=k
        else: c.count('contractions proved for all primitive and centre counts')
        c.nob+=n-len(bad); c.nok+=n-len(bad)
        for b in bad: c.violation(*b)
    # storage taken on entry, for angular momenta too large to evaluate term by term
    for am in range(0,10):
        mem=Mem(); s1,_,_=shapes.shell(mem,lay,'sh1',am,0,[0,0,0]); s2,_,_=shapes.shell(mem,lay,'sh2',am,0,[0,0,0])
        call(c,ms,(am,am),mem,[0]+[Ptr(Region(nm,'in'),0) for nm in('Z','x','y','z')]+[Ptr(s1,0),Ptr(s2,0),Ptr(Region('integrals','out'),0)],[])
    c.sample('simint_compute_potential: every component of every type with am <= %d, total <= %d'%(A,tot))
    c.atleast('output components',200)
    c.assume+=['the Boys routine returns F_m(T) for the orders it is asked for (property C06)','angular momenta beyond the enumerated ones are covered by the uniformity of the loops only']
import time
if __name__=='__main__':
    report.main('C02','proof','The public nuclear-attraction entry point is abstractly interpreted with symbolic exponents, coefficients, centres and charges; the Boys call is a summarised primitive whose argument and order are part of the result. Every output slot must equal the closed form (Hermite expansion and Hermite Coulomb integrals); every access to intermediate storage must be in bounds; sums over primitives and centres are decided with unbounded symbolic counts.',run)
