"""C01: overlap and kinetic-energy integrals, by value analysis of the entry points in an algebraic domain."""
import _path, sys, time
import build, report, shapes, gauss, dom, absint
from dom import *
from absint import Interp, Mem, State, AnalysisError
S=build.REPO+'/skel'
FILES=('simint_oneelectron.c','osoei/osoei_overlap.c','osoei/osoei_terms.c','osoei/osoei_ke.c','osoei/osoei_potential.c','recur_lookup.c')
ENTRY=(('overlap','simint_compute_overlap'),('ke','simint_compute_ke'))
def modules(c):
    inc=build.config_headers('SCALAR'); build.stub_ostei_config(inc)
    import os
    fs=[f for f in FILES if os.path.exists(S+'/simint/'+f)]
    ms=[build.module(S+'/simint/'+f,[inc,S]) for f in fs]
    c.units+=fs
    lay=shapes.layout('simint_shell',shapes.SHELL,(inc,S))
    return ms,lay,inc
def geom():
    X=[sym('A'+d) for d in 'xyz']; D=[sym('D'+d) for d in 'xyz']
    return X,[add(x,d) for x,d in zip(X,D)],D
def term(kind,e1,e2,a,b,p,PA,PB,cc,ones):
    if kind=='overlap': v=mul(mul(ones[0].s(e1[0],e2[0]),ones[1].s(e1[1],e2[1])),ones[2].s(e1[2],e2[2]))
    else:
        s=[ones[d].s(e1[d],e2[d]) for d in range(3)]; t=[ones[d].t(e1[d],e2[d]) for d in range(3)]
        v=add(add(mul(mul(t[0],s[1]),s[2]),mul(mul(s[0],t[1]),s[2])),mul(mul(s[0],s[1]),t[2]))
    return mul(cc,v)
def call(c,ms,entry,sh1,sh2,mem,ke=None):
    fn=None
    for m in ms:
        if entry in m.functions: fn=m.functions[entry]
    c.need(fn is not None,'entry point %s not found'%entry)
    I=Interp(*ms); out=Region('integrals','out')
    st=State(True,mem)
    I.call(fn,[Ptr(sh1,0),Ptr(sh2,0),Ptr(out,0)],st)
    c.count('instructions',I.ninstr)
    return I,out,st
def check_outputs(c,I,out,st,kind,am1,am2,spec,tag,fn,quiet=False):
    """every output slot holds the specified value; nothing else is written"""
    n1,n2=gauss.canon(am1),gauss.canon(am2)
    rs=st.mem.r.get(out); bad=[]
    ev=[e for e in I.events if e.kind in('store','memcpy','memset','havoc')]
    cells=rs.g.get(0,{}) if rs else {}
    want={8*(i*len(n2)+j) for i in range(len(n1)) for j in range(len(n2))}
    extra=set(cells)-want
    K='%s:(%d,%d)%s'%(kind,am1,am2,tag)
    loc=fn
    if extra or (rs and len([g for g in rs.g if g!=0])): bad.append((K+':extent','writes outside the %d output doubles (offset %s)'%(len(want),sorted(extra)[:3]),loc))
    for i,e1 in enumerate(n1):
        for j,e2 in enumerate(n2):
            x=cells.get(8*(i*len(n2)+j))
            if x is None: bad.append((K+':missing','component %s|%s is never written'%(e1,e2),loc)); continue
            w=spec(e1,e2)
            if not equal(x[1],w): bad.append((K+':%d,%d'%(i,j),'component %s|%s differs from the analytic integral: code %s, reference %s'%(e1,e2,str(x[1])[:200],str(w)[:200]),loc))
            else: c.nok+=0
    for e in ev:
        if e.reg is not None and e.reg.kind in('in','global'):
            bad.append((K+':input','writes to %s'%e.reg.name,I.loc(e.ins)))
    return bad,len(want)+1
def single(c,ms,lay,kind,entry,am1,am2):
    """one primitive each; inputs parametrised so that p=a+b is a symbol (a bijective change of variables)"""
    X,Y,D=geom(); p=shapes.pos('p'); a=shapes.pos('a'); b=sub(p,a); mem=Mem()
    c1,c2=sym('c1'),sym('c2')
    s1,_,_=shapes.shell(mem,lay,'sh1',am1,1,X,[a],[c1]); s2,_,_=shapes.shell(mem,lay,'sh2',am2,1,Y,[b],[c2])
    I,out,st=call(c,ms,entry,s1,s2,mem)
    k=geo(a,b,p,D)
    ones=[gauss.One(k[0][d],k[1][d],p,b) for d in range(3)]
    pre=mul(mul(c1,c2),k[2])
    bad,n=check_outputs(c,I,out,st,kind,am1,am2,lambda e1,e2:term(kind,e1,e2,a,b,p,None,None,pre,ones),'',entry)
    return bad,n
def geo(a,b,p,D):
    """PA, PB and the common prefactor for A=X, B=X+D"""
    ip=inv(p); PA=[mul(mul(b,d),ip) for d in D]; PB=[neg(mul(mul(a,d),ip)) for d in D]
    r2=add(add(mul(D[0],D[0]),mul(D[1],D[1])),mul(D[2],D[2]))
    pre=mul(rpow(mul(PI(),ip),Fraction(3,2)),exp_(neg(mul(mul(mul(a,b),ip),r2))))
    return PA,PB,pre
def multi(c,ms,lay,kind,entry,am1,am2,n1,n2):
    """n1 x n2 primitives; n1/n2 None: unbounded"""
    X,Y,D=geom(); mem=Mem()
    def cnt(n,nm):
        if n is not None: return n
        q=sym(nm); NONNEG.add(next(iter(q.t))[0][0]); return q
    N1,N2=cnt(n1,'nprim1'),cnt(n2,'nprim2')
    al1=[shapes.pos('a%d'%i) for i in range(n1)] if n1 is not None else None
    al2=[shapes.pos('b%d'%i) for i in range(n2)] if n2 is not None else None
    co1=[sym('c%d'%i) for i in range(n1)] if n1 is not None else None
    co2=[sym('d%d'%i) for i in range(n2)] if n2 is not None else None
    s1,ra,rc=shapes.shell(mem,lay,'sh1',am1,N1,X,al1,co1); s2,rb,rd=shapes.shell(mem,lay,'sh2',am2,N2,Y,al2,co2)
    I,out,st=call(c,ms,entry,s1,s2,mem)
    ti=new_atom('sym','$i','$i'); tj=new_atom('sym','$j','$j'); NONNEG.add(ti); NONNEG.add(tj)
    vi=Poly({((ti,1),):8}); vj=Poly({((tj,1),):8})
    ld=lambda r,o: ld_atom(r,0,o,'d')
    def prim(a,b,c1,c2,e1,e2):
        p=add(a,b); k=geo(a,b,p,D); ones=[gauss.One(k[0][d],k[1][d],p,b) for d in range(3)]
        return term(kind,e1,e2,a,b,p,None,None,mul(mul(c1,c2),k[2]),ones)
    def spec(e1,e2):
        if n1 is None: return mksum(N1,ti,mksum(N2,tj,prim(ld(ra,vi),ld(rb,vj),ld(rc,vi),ld(rd,vj),e1,e2)))
        r=0
        for i in range(n1):
            for j in range(n2): r=add(r,prim(al1[i],al2[j],co1[i],co2[j],e1,e2))
        return r
    return check_outputs(c,I,out,st,kind,am1,am2,spec,':nprim=%s'%('any' if n1 is None else '%dx%d'%(n1,n2)),entry)
def run(c):
    ms,lay,inc=modules(c)
    A=4 if not c.thorough else 6
    for kind,entry in ENTRY:
        for am1 in range(A+1):
            for am2 in range(A+1):
                if kind=='ke' and am1+am2>(6 if not c.thorough else 8): continue
                bad,n=single(c,ms,lay,kind,entry,am1,am2)
                c.count('shell-pair types'); c.count('output components',n-1); c.nob+=n-len(bad); c.nok+=n-len(bad)
                for b in bad: c.violation(*b)
                if c.verbose: print(kind,am1,am2,len(bad),'%.1f'%(time.time()-c.t0))
        # contraction: any number of primitives
        for am1,am2 in ((0,0),(1,0),(0,1)):
            ok=None
            try: bad,n=multi(c,ms,lay,kind,entry,am1,am2,None,None)
            except AnalysisError as e: bad,n=[('x',str(e),'')],1
            if bad:
                if c.verbose: print('symbolic counts undecided',bad[0])
                c.count('contraction by enumeration')
                bad=[];n=0
                for n1,n2 in ((1,1),(1,2),(2,1),(2,2)):
                    b,k=multi(c,ms,lay,kind,entry,am1,am2,n1,n2); bad+=b; n+=k
            else: c.count('contractions proved for all primitive counts')
            c.nob+=n-len(bad); c.nok+=n-len(bad)
            for b in bad: c.violation(*b)
        c.sample('%s: (0..%d, 0..%d), every component against binomial/moment closed form'%(entry,A,A))
    c.atleast('output components',1000)
    c.assume+=['angular momenta beyond %d per shell are covered by the uniformity of the loops in the angular momentum only'%A,'real arithmetic: rounding is not modelled']
if __name__=='__main__':
    report.main('C01','proof','The public overlap and kinetic-energy entry points are abstractly interpreted (callees inlined, no execution) with symbolic exponents, coefficients and centres; every output slot is a polynomial/exponential normal form that must equal the closed-form integral (binomial expansion with Gaussian moments; second derivative for kinetic energy). Sums over primitives are decided with unbounded symbolic counts.',run)
