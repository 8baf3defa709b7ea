"""C06: Boys function tables and evaluation."""
import _path, math, os
from fractions import Fraction
import build, report, dom, absint, llir
from dom import *
from absint import Interp, Mem, State, AnalysisError
from C05 import PIF, sqrtF, dfact
S=build.REPO+'/skel'
def boys_table(x,nmax,k=300):
    """F_0..F_nmax at rational x, fixed point with k fractional bits (series for the top order, stable downward recursion)"""
    one=1<<k
    xs=(x.numerator<<k)//x.denominator
    # e^{-x}
    t=one; s=one; i=1
    while t:
        t=t*xs>>k; t//=i; i+=1; s+=t
    ex=(one<<k)//s
    t=one*one//((2*nmax+1)<<k); s=t; i=1
    while t:
        t=(t*2*xs>>k)//(2*nmax+2*i+1); s+=t; i+=1
    F=[0]*(nmax+1); F[nmax]=s*ex>>k
    for n in range(nmax-1,-1,-1): F[n]=((2*xs*F[n+1]>>k)+ex)//(2*n+1)
    return [Fraction(f,one) for f in F]
def close(x,want): return abs(Fraction(x)-want)<=Fraction(math.ulp(float(want)))
def tables(c,inc):
    m=build.module(S+'/simint/boys/boys_shortgrid.c',[inc,S]); c.units.append('simint/boys/boys_shortgrid.c')
    g=m.globals.get('boys_shortgrid'); c.need(g is not None and llir.global_init(g) is not None,'boys_shortgrid not found')
    f=build.tmp()+'/bc.c'
    open(f,'w').write('#include "simint/boys/boys.h"\nconst double K[]={BOYS_SHORTGRID_SPACE,BOYS_SHORTGRID_MAXX,BOYS_SHORTGRID_NPOINT,BOYS_SHORTGRID_MAXN,BOYS_LONGFAC_MAXN};\nconst double*lf(void){return boys_longfac;}\n')
    k=build.module(f,[inc,S])
    space,maxx,npt,maxn,lmax=[x[1][1] for x in llir.global_init(k.globals['K'])[1]]
    space=dom.literal(space); npt=int(npt); maxn=int(maxn)
    rows=g.init[1]
    c.ob(len(rows)==npt,'boys_shortgrid:rows','%d rows, BOYS_SHORTGRID_NPOINT=%d'%(len(rows),npt),'skel/simint/boys/boys_shortgrid.c')
    for i,r in enumerate(rows):
        vals=[v[1][1] for v in r[1][1]] if r[1][0]!='czero' else []
        want=boys_table(Fraction(i)*space,maxn)
        c.ob(len(vals)==maxn+1,'boys_shortgrid[%d]:len'%i,'%d columns'%len(vals),'skel/simint/boys/boys_shortgrid.c')
        for n,(x,w) in enumerate(zip(vals,want)):
            c.ob(close(x,w),'boys_shortgrid[%d][%d]'%(i,n),'table value %r, F_%d(%s)=%r'%(x,n,float(Fraction(i)*space),float(w)),'skel/simint/boys/boys_shortgrid.c row x=%s'%float(Fraction(i)*space),'grid values')
    lf=k.globals.get('boys_longfac'); c.need(lf is not None,'boys_longfac not found')
    vals=[x[1][1] for x in llir.global_init(lf)[1]]
    for n,x in enumerate(vals):
        w=sqrtF(PIF)*dfact(2*n-1)/Fraction(2)**(n+1)
        c.ob(close(x,w),'boys_longfac[%d]'%n,'table value %r, sqrt(pi)(2n-1)!!/2^(n+1)=%r'%(x,float(w)),'skel/simint/boys/boys_longfac.h','asymptotic factors')
    c.ob(len(vals)>=maxn+1,'boys_longfac:len','%d asymptotic factors for orders up to %d'%(len(vals),maxn),'skel/simint/boys/boys_longfac.h')
    return space,len(rows),maxn,m
VEC={'SCALAR':((),()),'SSE':((),('-msse4.2',)),'AVX2':((),('-mavx2','-mfma'))}
def evaluate(c,vec,n,gridmod,mods):
    if vec not in mods:
        inc=build.config_headers(vec)
        f=build.tmp()+'/boys_%s.c'%vec
        open(f,'w').write('#include "simint/boys/boys.h"\nconst int LEN=SIMINT_SIMD_LEN;\nvoid probe(SIMINT_DBLTYPE *F,SIMINT_DBLTYPE const *x,int n){boys_F_split(F,*x,n);}\n')
        m=build.module(f,[inc,S],flags=VEC[vec][1]); mods[vec]=(m,llir.global_init(m.globals['LEN'])[1])
    m,L=mods[vec]
    I=Interp(m,gridmod)
    tab={}
    def lh(I,mem,p,size,ty,ins):
        if p.r.kind=='global' and p.r.name=='@boys_longfac':
            if type(p.o) is int and p.o%8==0:
                k=p.o//8; return mul(rpow(PI(),Fraction(1,2)),Fraction(dfact(2*k-1),2**(k+1)))
            raise AnalysisError('asymptotic factor with unresolved index')
        if p.r.kind=='global' and p.r.name=='@boys_shortgrid' and type(p.o) is Poly:
            tab.setdefault(I.loc(ins),p.r.size); return func('grid',p.o)
        return None
    I.load_hook=lh
    F=Region('F','out'); X=Region('x','in'); mem=Mem(); xs=[shapes.pos('x%d'%v) for v in range(L)]
    shapes.arr(mem,X,xs); st=State(True,mem)
    POWS.clear()
    I.call(m.functions['probe'],[Ptr(F,0),Ptr(X,0),n],st)
    c.count('instructions',I.ninstr)
    return I,L,xs,st.mem.r[F]
import shapes
POWS=[]
def _pow(x,y):
    if isnum(y): POWS.append(Fraction(y))
    return absint.f_pow(x,y)
absint.BUILTIN['pow']=absint.mf('pow',_pow)
def taylor(x,idx,n,K,space,ncol):
    dx=sub(mul(idx,space),x); s=0
    for j in range(K): s=add(s,mul(mul(ipow(dx,j) if j else 1,Fraction(1,math.factorial(j))),func('grid',add(mul(idx,8*ncol),8*(n+j)))))
    return s
def longform(x,n): return mul(mul(rpow(PI(),Fraction(1,2)),Fraction(dfact(2*n-1),2**(n+1))),rpow(x,Fraction(-(2*n+1),2)))
def direct_ok(c,val,x,n,space,nrow,ncol,maxx):
    """val is the grid expansion for arguments below the switch-over and the asymptotic form above; returns error text or None"""
    for pc,v in leaves(val):
        if not feasible(pc): continue
        if equal(v,longform(x,n)):
            # must not be used below the end of the table
            if feasible(cand(pc,fgt(sub(maxx,x)))): return 'asymptotic form used for arguments below the switch-over %s (if %s)'%(maxx,str(pc)[:120])
            continue
        ia=set()
        for a in deps(v):
            k,p=ATOMS[a]
            if k=='f' and p[0]=='ftoi': ia.add(a)
        if len(ia)!=1: return 'neither the asymptotic form nor an expansion about one grid point: %s'%str(v)[:200]
        a=ia.pop(); idx=Poly({((a,1),):1}); arg=ATOMS[a][1][1][0]
        r=sub(arg,div(x,space))
        if not isnum(r): return 'grid index %s is not a multiple of the argument'%str(arg)[:80]
        if abs(Fraction(r)-Fraction(1,2))>Fraction(1,10**6): return 'grid index is trunc(x/%s + %s), not the nearest grid point'%(float(space),float(r))
        if feasible(cand(pc,cnot(fgt(sub(nrow,arg))))): return 'grid index can reach %d, the table has %d rows (if %s)'%(nrow,nrow,str(pc)[:120])
        for K in (8,9,10,11,12):
            if equal(v,taylor(x,idx,n,K,space,ncol)):
                if n+K>ncol: return 'expansion reads column %d of %d'%(n+K-1,ncol)
                break
        else: return 'not the Taylor expansion about the grid point: %s'%str(v)[:300]
    return None
def run(c):
    inc=build.config_headers('SCALAR'); build.stub_ostei_config(inc)
    space,nrow,maxn,gm=tables(c,inc); ncol=maxn+1
    maxx=Fraction(73,2) if nrow==366 else Fraction(nrow-1)*space
    maxx=(nrow-1)*Fraction(space)
    mods={}
    vecs=['SCALAR','SSE','AVX2']
    for vec in vecs:
        for n in range(0,maxn-7+1):
            if vec!='SCALAR' and not c.thorough and n not in (0,1,2,3,4,5,6,7,8,12,16,24): continue
            I,L,xs,F=evaluate(c,vec,n,gm,mods)
            c.count('orders x instruction sets')
            # a power steeper than the result's own underflows for arguments where the result does not
            c.ob(not POWS or min(POWS)>=-(n+1),'%s:n=%d:power'%(vec,n),lambda:'an intermediate is x**(%s) although the result falls off only as x**(-%s)'%(min(POWS),n+Fraction(1,2)),'boys_F_split','range of intermediate powers')
            cells=F.g.get(0,{})
            for off in cells:
                c.ob(0<=off<8*L*(n+1),'%s:n=%d:extent'%(vec,n),'writes byte %d of an output of %d vectors'%(off,n+1),'boys_F_split')
            for e in I.events:
                if e.kind in('store','havoc','memcpy','memset') and e.reg is not None and e.reg.kind in('in','global'): c.violation('%s:input'%vec,'writes %s'%e.reg.name,I.loc(e.ins))
            for v in range(L):
                V=[cells.get(8*(k*L+v)) for k in range(n+1)]
                for k in range(n,-1,-1):
                    key='%s:n=%d:F[%d] lane %d'%(vec,n,k,v)
                    if V[k] is None: c.violation(key,'never written','boys_F_split'); continue
                    if k<n and V[k+1] is not None and n>=1:
                        rec=scale(1,1)
                        up=V[k+1][1]
                        want=lift(lambda u:mul(add(mul(scale(xs[v],2),u),exp_(neg(xs[v]))),Fraction(1,2*k+1)),up)
                        if equal(V[k][1],want): c.ob(True,key,'', 'boys_F_split','values by downward recursion'); continue
                    err=direct_ok(c,V[k][1],xs[v],k,space,nrow,ncol,maxx)
                    c.ob(err is None,key,err or '','boys_F_split','values by grid/asymptotic form')
        c.sample('%s: boys_F_split, all lanes, orders 0..%d'%(vec,maxn-7))
    c.atleast('grid values',366*32); c.atleast('values by grid/asymptotic form',50); c.atleast('values by downward recursion',50)
    c.assume+=['arguments are non-negative','libm exp/pow/sqrt are exact','orders above %d read past the tabulated columns and are outside the claim'%(maxn-7)]
report.main('C06','proof','Every grid value and asymptotic factor is compared with an exact fixed-point evaluation; boys_F_split (with everything it calls) is abstractly interpreted for every order and three vector back ends, each lane separately; the value must be the nearest-grid-point Taylor expansion below the switch-over and the asymptotic form above it, or the downward recursion from the next order, and the table index must stay inside the table on every feasible branch.',run) if __name__=='__main__' else None
