"""Value domain of the abstract interpreter: algebraic value numbers.

 number     python int / Fraction
 Poly       sum of (rational coefficient x product of atom^rational) over interned atoms
 Gate       decision node over an interned condition (gated value; leaves are any value)
 Ptr        (region, byte offset)      tuple  vector lanes     FnPtr  function
 conditions are Gates with leaves True/False

Two values are the same number iff they are equal as algebraic expressions in the atoms (inputs); nothing
is ever evaluated at a concrete point of the input space.  Lookup keys are 61-bit structural fingerprints
(ring homomorphism images); equalities that decide a verdict are confirmed exactly by is_zero().
"""
import hashlib, math
from fractions import Fraction
M=(1<<61)-1

def h61(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(),digest_size=8).digest(),'big')%(M-3)+2

ATOMS=[]          # (kind, payload, fp)
ATOM_FP=[]
_intern={}
POS=set()         # atoms assumed positive (sqrt/abs simplification)

def new_atom(kind,payload,key):
    k=(kind,key)
    a=_intern.get(k)
    if a is None:
        a=len(ATOMS)
        ATOMS.append((kind,payload)); ATOM_FP.append(h61('atom',kind,key))
        _intern[k]=a
    return a

def sym(name):
    """a free symbol as a value"""
    return Poly({((new_atom('sym',name,name),1),):1})

_isnum={int,Fraction,bool}
def isnum(x):
    return type(x) is int or type(x) is Fraction

def norm(c):
    if type(c) is Fraction and c.denominator==1: return c.numerator
    return c

class Poly:
    __slots__=('t','_fp','_deps')
    def __init__(self,t):
        self.t=t; self._fp=None; self._deps=None
    @property
    def fp(self):
        f=self._fp
        if f is None:
            f=0
            for m,c in self.t.items():
                v=c if type(c) is int else (c.numerator*pow(c.denominator,-1,M))
                for a,e in m: v=v*atom_pow_fp(a,e)%M
                f+=v
            f%=M
            self._fp=f
        return f
    def __hash__(self): return self.fp
    def __eq__(self,o): return type(o) is Poly and o.fp==self.fp
    def __repr__(self): return show(self)

_apf={}
def atom_pow_fp(a,e):
    if e==1: return ATOM_FP[a]
    k=(a,e); v=_apf.get(k)
    if v is None:
        if type(e) is int: v=pow(ATOM_FP[a],e,M)
        else:
            fl=math.floor(e)
            v=pow(ATOM_FP[a],fl,M)*h61('root',a if False else ATOM_FP[a],str(e-fl))%M
        _apf[k]=v
    return v

def mk(t):
    """value from a term dict (drops zeros, collapses constants)"""
    if not t: return 0
    if len(t)==1:
        c=t.get(())
        if c is not None: return norm(c)
    return Poly(t)

def fpof(x):
    if type(x) is int: return x%M
    if type(x) is Fraction: return x.numerator*pow(x.denominator,-1,M)%M
    if type(x) is Poly: return x.fp
    return h61('v',key(x))

def key(x):
    t=type(x)
    if t is int or t is bool: return x
    if t is Fraction: return ('q',x.numerator,x.denominator)
    if t is Poly: return ('p',x.fp)
    if t is Gate: return ('g',x.fp)
    if t is Ptr: return ('ptr',x.r.uid,key(x.o))
    if t is tuple: return tuple(key(y) for y in x)
    if t is FnPtr: return ('fn',x.name)
    if x is None: return None
    if t is str: return x
    raise TypeError(x)

def add(x,y):
    if type(x) is not Poly:
        if type(y) is not Poly:
            return norm(x+y)
        x,y=y,x
    if type(y) is not Poly:
        if y==0: return x
        t=dict(x.t); c=t.get((),0)+y
        if c==0:
            del t[()]
            return mk(t)
        t[()]=c
        return Poly(t)
    if len(x.t)<len(y.t): x,y=y,x
    t=dict(x.t)
    for m,c in y.t.items():
        o=t.get(m)
        if o is None: t[m]=c
        else:
            c=o+c
            if c==0: del t[m]
            else: t[m]=c
    return mk(t)

def neg(x):
    if type(x) is Poly: return Poly({m:-c for m,c in x.t.items()})
    return -x
def sub(x,y): return add(x,neg(y))

def scale(x,c):
    if type(x) is not Poly: return norm(x*c)
    if c==0: return 0
    if c==1: return x
    return Poly({m:norm(k*c) for m,k in x.t.items()})

SPECIAL=set() # atom ids needing merging: exp atoms, indicator atoms
def mulmono(m,n):
    if not m: return n
    if not n: return m
    d=dict(m)
    sp=None
    for a,e in n:
        o=d.get(a)
        if o is None: d[a]=e
        else:
            e=norm(o+e)
            if e==0: del d[a]
            else: d[a]=e
        if a in SPECIAL: sp=True
    if sp: return _fixspecial(d)
    return tuple(sorted(d.items()))
def _fixspecial(d):
    exps=[]
    for a in list(d):
        k=ATOMS[a][0]
        if k=='ind':
            if d[a]>0: d[a]=1
        elif k=='exp': exps.append(a)
        elif k=='zero': pass
    if len(exps)>1 or (exps and d[exps[0]]!=1):
        arg=0
        for a in exps:
            arg=add(arg,scale(ATOMS[a][1],d[a])); del d[a]
        e=exp_(arg)
        if type(e) is Poly:
            (m,c),=e.t.items()
            for a,k in m: d[a]=k
    return tuple(sorted(d.items()))

def mul(x,y):
    if type(x) is not Poly:
        if type(y) is not Poly: return norm(x*y)
        return scale(y,x)
    if type(y) is not Poly: return scale(x,y)
    if len(x.t)<len(y.t): x,y=y,x
    if len(y.t)==1:
        (n,k),=y.t.items()
        t={}
        for m,c in x.t.items():
            mm=mulmono(m,n); v=norm(c*k)
            o=t.get(mm)
            if o is None: t[mm]=v
            else:
                v=o+v
                if v==0: del t[mm]
                else: t[mm]=v
        return mk(t)
    t={}
    for n,k in y.t.items():
        for m,c in x.t.items():
            mm=mulmono(m,n)
            v=t.get(mm,0)+c*k
            t[mm]=v
    return mk({m:norm(c) for m,c in t.items() if c!=0})

class Undefined(Exception): pass

def _ratgcd(cs):
    num=0;den=1
    for c in cs:
        c=Fraction(c)
        num=math.gcd(num,c.numerator); den=den*c.denominator//math.gcd(den,c.denominator)
    return Fraction(num,den)

def base_atom(p):
    """atom standing for the (normalised) polynomial p, returns (atom, rational content, monomial content)"""
    # factor rational content and common monomial (integer min exponents)
    cs=list(p.t.values())
    g=_ratgcd(cs)
    ms=list(p.t.keys())
    common=dict(ms[0])
    for m in ms[1:]:
        d=dict(m)
        for a in list(common):
            e=d.get(a,0)
            if (e>0)!=(common[a]>0) or e==0: del common[a]
            else: common[a]=min(common[a],e) if e>0 else max(common[a],e)
    # negative powers: bring to a common denominator
    for m in ms:
        for a,e in m:
            if e<0:
                mn=min(dict(q).get(a,0) for q in ms)
                if mn<0: common[a]=mn
    for a in list(common):
        if a in SPECIAL: del common[a]
    cm=tuple(sorted(common.items()))
    inv=tuple((a,-e) for a,e in cm)
    # sign: coefficient of a canonical (smallest fp) monomial positive unless everything is declared positive
    t={mulmono(m,inv):Fraction(c)/g for m,c in p.t.items()}
    q=mk({m:norm(c) for m,c in t.items()})
    if type(q) is not Poly: return None,g*Fraction(q),cm
    if len(q.t)==1:
        (m,c),=q.t.items()
        return None,g*c,mulmono(cm,m)
    sgn=1
    lead=min(q.t,key=lambda m: mono_fp(m))
    if q.t[lead]<0 : sgn=-1
    if sgn<0: q=neg(q)
    k=('base',q.fp)
    a=_intern.get(k)
    if a is None:
        # a base atom's fingerprint is the polynomial's own, so (a+b)*base(a+b)^-1 has fingerprint 1
        a=len(ATOMS); ATOMS.append(('base',q)); ATOM_FP.append(q.fp); _intern[k]=a
    return a,g*sgn,cm

def mono_fp(m):
    v=1
    for a,e in m: v=v*atom_pow_fp(a,e)%M
    return v

def inv(x):
    if type(x) is not Poly:
        if x==0: raise ZeroDivisionError
        return norm(Fraction(1)/x)
    if len(x.t)==1:
        (m,c),=x.t.items()
        return Poly({tuple((a,-e) for a,e in m):norm(Fraction(1)/c)}) if not any(ATOMS[a][0]=='exp' for a,e in m) else \
               mul(Poly({_fixspecial({a:-e for a,e in m}):1}),norm(Fraction(1)/c)) 
    a,g,cm=base_atom(x)
    d=dict((b,-e) for b,e in cm)
    if a is not None: d[a]=d.get(a,0)-1
    return Poly({tuple(sorted(d.items())):norm(Fraction(1)/g)})
def div(x,y): return mul(x,inv(y))

def _isqrt_frac(q):
    q=Fraction(q)
    if q<0: return None
    a=math.isqrt(q.numerator); b=math.isqrt(q.denominator)
    if a*a==q.numerator and b*b==q.denominator: return Fraction(a,b)
    return None
def _numroot(q,e):
    """q**e for rational q>0, e rational with denominator 2 -> value"""
    q=Fraction(q)
    n=Fraction(e)*2
    assert n.denominator==1
    n=n.numerator
    r=_isqrt_frac(q)
    if r is not None: return norm(r**n)
    if n%2==0: return norm(q**(n//2))
    # square-free part
    num=q.numerator*q.denominator; sq=1; f=2
    base=num
    while f*f<=base and f<2000:
        while base%(f*f)==0: base//=f*f; sq*=f
        f+=1
    # sqrt(q)=sqrt(num)/den
    s=Fraction(sq,q.denominator)
    at=new_atom('base',Poly({():base}) if False else base,('num',base))
    ATOM_FP[at]=base%M
    v=Poly({((at,Fraction(1,2)),):norm(s)})
    out=v
    return ipow(v,n)
def ipow(x,n):
    if n==0: return 1
    if n<0: return ipow(inv(x),-n)
    r=1
    b=x
    while n:
        if n&1: r=mul(r,b)
        n>>=1
        if n: b=mul(b,b)
    return fixnum(r)
def fixnum(p):
    """reduce numeric base atoms with |exponent|>=1"""
    if type(p) is not Poly: return p
    ch=False
    for m in p.t:
        for a,e in m:
            if ATOMS[a][0]=='base' and type(ATOMS[a][1]) is int and (e>=1 or e<0): ch=True
    if not ch: return p
    t={}
    for m,c in p.t.items():
        mm=[]
        for a,e in m:
            if ATOMS[a][0]=='base' and type(ATOMS[a][1]) is int:
                fl=math.floor(e); c=c*Fraction(ATOMS[a][1])**fl; e=norm(Fraction(e)-fl)
                if e==0: continue
            mm.append((a,e))
        mm=tuple(mm); t[mm]=norm(t.get(mm,0)+c)
    return mk({m:c for m,c in t.items() if c!=0})
def rpow(x,e):
    """x**e, e rational, x assumed positive when e is not an integer"""
    e=norm(Fraction(e)) if not type(e) is int else e
    if type(e) is int and (type(x) is not Poly or abs(e)<=64): 
        return fixnum(ipow(x,e)) if type(x) is Poly else norm(Fraction(x)**e if x!=0 or e>0 else 0)
    if type(x) is not Poly:
        if x==0: return 0
        if Fraction(e).denominator==2: return fixnum(_numroot(x,e))
        return func('pow',x,e)
    if len(x.t)==1:
        (m,c),=x.t.items()
        g=c; cm=m; a=None
    else:
        a,g,cm=base_atom(x)
    d={}
    res=1
    for b,k in cm:
        if ATOMS[b][0]=='exp':
            res=mul(res,exp_(scale(ATOMS[b][1],e*k)))
        else: d[b]=norm(Fraction(k)*e)
    if a is not None: d[a]=norm(Fraction(d.get(a,0))+e)
    if g<0:
        return func('pow',x,e)
    d={k:v for k,v in d.items() if v!=0}
    r=mul(res,Poly({tuple(sorted(d.items())):1})) if d else res
    g=rpow(norm(Fraction(g)),e) if g!=1 else 1
    return fixnum(mul(r,g))
def sqrt_(x):
    if type(x) is not Poly and x==0: return 0
    return rpow(x,Fraction(1,2))

def exp_(x):
    if type(x) is not Poly and x==0: return 1
    a=new_atom('exp',x,fpof(x)); SPECIAL.add(a)
    return Poly({((a,1),):1})

def func(name,*args):
    """uninterpreted function value"""
    a=new_atom('f',(name,args),(name,)+tuple(key(x) for x in args))
    return Poly({((a,1),):1})

# ---------------------------------------------------------------- gates
class Gate:
    __slots__=('v','hi','lo','fp')
    def __hash__(self): return self.fp
    def __eq__(self,o): return self is o or (type(o) is Gate and o.fp==self.fp)
    def __repr__(self): return show(self)
_gates={}
def gate(v,hi,lo):
    """v: condition variable index"""
    if same(hi,lo): return hi
    k=(v,key(hi),key(lo))
    g=_gates.get(k)
    if g is None:
        g=Gate(); g.v=v; g.hi=hi; g.lo=lo; g.fp=h61('gate',CONDFP[v],k[1],k[2]); _gates[k]=g
    return g
def same(x,y):
    if x is y: return True
    if type(x) is not type(y):
        return isnum(x) and isnum(y) and type(x) is not bool and type(y) is not bool and x==y
    if type(x) in (int,Fraction,bool): return x==y
    return key(x)==key(y)

CONDS=[]   # (kind, payload)
CONDFP=[]
_cidx={}
def cond_var(kind,payload,k):
    kk=(kind,k); i=_cidx.get(kk)
    if i is None:
        i=len(CONDS); CONDS.append((kind,payload)); CONDFP.append(h61('cond',kind,k)); _cidx[kk]=i
    return i
def cond_atom(kind,payload,k):
    return gate(cond_var(kind,payload,k),True,False)
def fresh_cond(name,_n=[0]):
    _n[0]+=1
    return cond_atom('fresh',name,(name,_n[0]))

def topvar(*xs):
    v=None
    for x in xs:
        if type(x) is Gate and (v is None or x.v<v): v=x.v
    return v
def cof(x,v,b):
    if type(x) is Gate and x.v==v: return x.hi if b else x.lo
    return x
def lift(f,*xs):
    """apply f to leaves"""
    v=topvar(*xs)
    if v is None: return f(*xs)
    memo={}
    def rec(*xs):
        v=topvar(*xs)
        if v is None: return f(*xs)
        k=tuple(key(x) for x in xs)
        r=memo.get(k)
        if r is None:
            r=gate(v,rec(*[cof(x,v,True) for x in xs]),rec(*[cof(x,v,False) for x in xs]))
            memo[k]=r
        return r
    return rec(*xs)
_ite={}
MAXFOLD=[False]; MAXSET={}
def maxset(x):
    if type(x) is Poly and len(x.t)==1:
        (m,c),=x.t.items()
        if c==1 and len(m)==1 and m[0][1]==1 and m[0][0] in MAXSET: return MAXSET[m[0][0]]
    return [x]
def maxof(a,b):
    """the larger of two values, as a set of candidates"""
    s={key(x):x for x in maxset(a)+maxset(b)}
    l=[s[k] for k in sorted(s,key=str)]
    if len(l)==1: return l[0]
    r=func('max',*l); MAXSET[next(iter(r.t))[0][0]]=l
    return r
def maxfold(c,a,b):
    if type(c) is not Gate or type(a) is Gate or type(b) is Gate or c.hi not in(True,False) or c.lo not in(True,False): return None
    kind,p=CONDS[c.v]
    if kind!='fgt' or type(p) is not Poly: return None
    d=sub(a,b)
    if type(d) is not Poly: return None
    g=_ratgcd(list(d.t.values())); q=Poly({m:norm(Fraction(k)/g) for m,k in d.t.items()})
    if q==p: return maxof(a,b) if c.hi else None
    if neg(q)==p: return None if c.hi else maxof(a,b)
    return None
def ite(c,a,b):
    if c is True: return a
    if c is False: return b
    if same(a,b): return a
    if MAXFOLD[0]:
        r=maxfold(c,a,b)
        if r is not None: return r
    k=(key(c),key(a),key(b))
    r=_ite.get(k)
    if r is None:
        v=topvar(c,a,b)
        r=gate(v,ite(cof(c,v,True),cof(a,v,True),cof(b,v,True)),ite(cof(c,v,False),cof(a,v,False),cof(b,v,False)))
        _ite[k]=r
    return r
def cand(a,b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return ite(a,b,False)
def cor(a,b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return ite(a,True,b)
def cnot(a):
    if a is True: return False
    if a is False: return True
    return ite(a,False,True)
_rs={}
def restrict(x,care):
    """simplify x under condition care"""
    if type(x) is not Gate or type(care) is not Gate: return x
    k=(x.fp,care.fp)
    r=_rs.get(k)
    if r is not None: return r[0]
    if care.v<x.v:
        r=restrict(x,cor(care.hi,care.lo)) if care.hi is not False and care.lo is not False else restrict(x,care.hi if care.lo is False else care.lo)
    elif care.v==x.v:
        if care.hi is False: r=restrict(x.lo,care.lo)
        elif care.lo is False: r=restrict(x.hi,care.hi)
        else: r=gate(x.v,restrict(x.hi,care.hi),restrict(x.lo,care.lo))
    else:
        r=gate(x.v,restrict(x.hi,care),restrict(x.lo,care))
    _rs[k]=(r,)
    return r
def leaves(x,pc=True,out=None):
    """[(condition, leaf)]"""
    if type(x) is not Gate: return [(pc,x)]
    out=[]
    def rec(x,pc):
        if pc is False: return
        if type(x) is not Gate: out.append((pc,x)); return
        c=gate(x.v,True,False)
        rec(x.hi,cand(pc,c)); rec(x.lo,cand(pc,cnot(c)))
    rec(x,pc)
    return out
def cvars(c,acc=None):
    acc=set() if acc is None else acc
    if type(c) is Gate:
        acc.add(c.v); cvars(c.hi,acc); cvars(c.lo,acc)
    return acc

# facts: polynomials known to be >= 0 in the current context
FACTS=[]
NONNEG=set()  # atoms known nonnegative integers
def known_nonneg(e):
    if type(e) is not Poly: return e>=0
    def trivially(p):
        if type(p) is not Poly: return p>=0
        for m,c in p.t.items():
            if c<0: return False
            for a,x in m:
                if a not in NONNEG: return False
        return True
    if trivially(e): return True
    for f in FACTS:
        if trivially(sub(e,f)): return True
    for i,f in enumerate(FACTS):
        d=sub(e,f)
        for g in FACTS[i+1:]:
            if trivially(sub(d,g)): return True
    return False

def ge0(e):
    """condition e>=0 over integers"""
    if type(e) is not Poly: return bool(e>=0)
    if known_nonneg(e): return True
    if known_nonneg(add(neg(e),-1)): return False
    # canonical sign/scale
    cs=[c for m,c in e.t.items() if m!=()]
    g=_ratgcd(cs)
    k=Fraction(e.t.get((),0))/g
    body={m:norm(Fraction(c)/g) for m,c in e.t.items() if m!=()}
    lead=min(body,key=mono_fp)
    if body[lead]<0:
        # e>=0  <=>  not(-e-1>=0):   -(body+k)-eps
        nb={m:-c for m,c in body.items()}
        # body+k>=0 <=> -nb+k>=0 <=> nb<=k <=> nb<=floor(k) <=> not(nb-floor(k)-1>=0)
        k2=-math.floor(k)-1
        p=Poly(dict(nb));
        full=add(p,k2)
        return cnot(cond_atom('ge0',full,fpof(full)))
    k2=math.floor(k)
    full=add(Poly(dict(body)),k2)
    return cond_atom('ge0',full,fpof(full))
EQNODES={}
def eq0(e):
    if type(e) is not Poly: return e==0
    c=cand(ge0(e),ge0(neg(e)))
    if type(c) is Gate: EQNODES.setdefault(c.fp,e); EQNODES.setdefault(cnot(c).fp,('ne',e))
    return c
def fgt(d):
    """float condition d>0"""
    if type(d) is not Poly: return bool(d>0)
    if all(a in POS for m in d.t for a,e in m):
        if all(c>0 for c in d.t.values()): return True
        if all(c<0 for c in d.t.values()): return False
    cs=list(d.t.values()); g=_ratgcd(cs)
    body={m:norm(Fraction(c)/g) for m,c in d.t.items()}
    p=Poly(body)
    return cond_atom('fgt',p,p.fp)
def feq(d):
    if type(d) is not Poly: return d==0
    cs=list(d.t.values()); g=_ratgcd(cs)
    p=Poly({m:norm(Fraction(c)/g) for m,c in d.t.items()})
    lead=min(p.t,key=mono_fp)
    if p.t[lead]<0: p=neg(p)
    return cond_atom('feq',p,p.fp)

# ---------------------------------------------------------------- pointers / regions
class Region:
    _n=0
    __slots__=('uid','name','kind','size','info','children')
    def __init__(self,name,kind,size=None,info=None):
        Region._n+=1; self.uid=Region._n; self.name=name; self.kind=kind; self.size=size; self.info=info; self.children={}
    def __repr__(self): return '<R %s>'%self.name
class Ptr:
    __slots__=('r','o')
    def __init__(self,r,o): self.r=r; self.o=o
    def __repr__(self): return '&%s[%s]'%(self.r.name,show(self.o))
    def __hash__(self): return hash(key(self))
    def __eq__(self,o): return type(o) is Ptr and o.r is self.r and same(o.o,self.o)
class FnPtr:
    __slots__=('name',)
    def __init__(self,n): self.name=n
    def __repr__(self): return '&'+self.name
    def __hash__(self): return hash(self.name)
    def __eq__(self,o): return type(o) is FnPtr and o.name==self.name

# ---------------------------------------------------------------- traversal / substitution
def atom_args(a):
    kind,p=ATOMS[a]
    if kind=='exp' or kind=='base': return [p]
    if kind=='f': return list(p[1])
    if kind=='ld': return [p[2]]     # (region, version, offset, type)
    if kind=='sum': return [p[0],p[2]]  # (T, boundvar atom, body)
    if kind=='ind': return list(cond_args(p))
    return []
def cond_args(v):
    kind,p=CONDS[v]
    if kind in ('ge0','fgt','feq'): return [p]
    return []
_adeps={}
def adeps(a):
    d=_adeps.get(a)
    if d is None:
        s={a}
        for x in atom_args(a): s|=deps(x)
        if ATOMS[a][0]=='sum': s=s-{ATOMS[a][1][1]}
        d=frozenset(s); _adeps[a]=d
    return d
def deps(x):
    """all atoms a value depends on"""
    t=type(x)
    if t is Poly:
        if x._deps is None:
            s=set()
            for m in x.t:
                for a,e in m: s|=adeps(a)
            x._deps=frozenset(s)
        return x._deps
    if t is Gate:
        s=set(deps(x.hi))|deps(x.lo)
        for y in cond_args(x.v): s|=deps(y)
        return frozenset(s)
    if t is Ptr: return deps(x.o)
    if t is tuple:
        s=set()
        for y in x: s|=deps(y)
        return frozenset(s)
    return frozenset()

def subst(x,mp):
    """replace atoms by values; mp: atom id -> value"""
    if not mp: return x
    keys=frozenset(mp)
    memo={}; am={}
    def sa(a):
        r=am.get(a)
        if r is not None: return r
        if a in mp: r=mp[a]
        elif not (adeps(a)&keys): r=Poly({((a,1),):1})
        else:
            kind,p=ATOMS[a]
            if kind=='exp': r=exp_(sv(p))
            elif kind=='base': r=sv(p) if type(p) is not int else Poly({((a,1),):1})
            elif kind=='f': r=refunc(p[0],[sv(y) for y in p[1]])
            elif kind=='ld': r=ld_atom(p[0],p[1],sv(p[2]),p[3])
            elif kind=='sum':
                if p[1] in keys: 
                    mp2={k:v for k,v in mp.items() if k!=p[1]}
                    r=mksum(subst(p[0],mp),p[1],subst(p[2],mp2))
                else: r=mksum(sv(p[0]),p[1],sv(p[2]))
            elif kind=='ind': r=indicator(scond(p))
            else: raise TypeError(kind)
        am[a]=r
        return r
    def scond(v):
        kind,p=CONDS[v]
        if kind=='ge0': return ge0(sv(p))
        if kind=='fgt': return fgt(sv(p))
        if kind=='feq': return feq(sv(p))
        return gate(v,True,False)
    def sv(x):
        t=type(x)
        if t is Poly:
            if not (deps(x)&keys): return x
            k=x.fp
            r=memo.get(k)
            if r is not None: return r[0]
            r=0
            plain={}
            for m,c in x.t.items():
                hit=[(a,e) for a,e in m if adeps(a)&keys]
                if not hit: plain[m]=c; continue
                rest=tuple((a,e) for a,e in m if not adeps(a)&keys)
                term=Poly({rest:c}) if rest else c
                for a,e in hit:
                    b=sa(a)
                    term=mul(term,b if e==1 else rpow(b,e))
                r=add(r,term)
            r=add(r,mk(plain))
            memo[k]=(r,)
            return r
        if t is Gate:
            if not (deps(x)&keys): return x
            return ite(scond(x.v),sv(x.hi),sv(x.lo))
        if t is Ptr: return Ptr(x.r,sv(x.o))
        if t is tuple: return tuple(sv(y) for y in x)
        return x
    return sv(x)
REFUNC={}
def refunc(name,args):
    f=REFUNC.get(name)
    if f: return f(*args)
    return func(name,*args)

def ld_atom(region,ver,off,ty):
    if type(off) is Gate:
        return lift(lambda o: ld_atom(region,ver,o,ty),off)
    a=new_atom('ld',(region,ver,off,ty),(region.uid,ver,key(off),ty))
    return Poly({((a,1),):1})

def indicator(c):
    """0/1 value of a condition as polynomial"""
    if c is True: return 1
    if c is False: return 0
    a=new_atom('ind',c.v,CONDFP[c.v]); SPECIAL.add(a)
    i=Poly({((a,1),):1})
    h=indicator(c.hi); l=indicator(c.lo)
    return add(mul(i,h),mul(sub(1,i),l))
def togpoly(x):
    """gated number -> polynomial with indicators"""
    if type(x) is not Gate: return x
    a=new_atom('ind',x.v,CONDFP[x.v]); SPECIAL.add(a)
    i=Poly({((a,1),):1})
    return add(mul(i,togpoly(x.hi)),mul(sub(1,i),togpoly(x.lo)))

_bv=[]
def boundvar(h):
    while len(_bv)<=h:
        _bv.append(new_atom('bv',len(_bv),len(_bv))); NONNEG.add(_bv[-1])
    return _bv[h]
_BV=set()
def sum_height(x):
    h=0
    for a in deps(x):
        if ATOMS[a][0]=='sum':
            h=max(h,SUMH[a])
    return h
SUMH={}
def mksum(T,var,body):
    """Sum_{var=0}^{T-1} body ; var: atom id"""
    body=togpoly(body)
    if type(T) is int:
        if T<=0: return 0
        if T<=4:
            r=0
            for i in range(T): r=add(r,subst(body,{var:i}))
            return r
    if type(body) is not Poly and body==0: return 0
    if var not in deps(body): return mul(T,body)
    # canonical order of nested independent sums: terms c*Sum(T2,..) with T2 independent of var and
    # a smaller fingerprint than T become the outer sum
    if type(body) is Poly:
        rest={}; out=0; ft=fpof(T)
        for m,c in body.t.items():
            ss=[q for q in m if ATOMS[q[0]][0]=='sum']
            if len(ss)==1 and ss[0][1]==1:
                T2,v2,b2=ATOMS[ss[0][0]][1]; mm=tuple(q for q in m if q is not ss[0])
                if var not in deps(T2):
                    f2=fpof(T2)
                    if f2<ft or (f2==ft and False):
                        s1=new_atom('sym','$s1%d'%sum_height(body),'$s1%d'%sum_height(body)); s2=new_atom('sym','$s2%d'%sum_height(body),'$s2%d'%sum_height(body))
                        b=subst(b2,{v2:Poly({((s2,1),):1})})
                        if mm: b=mul(b,Poly({mm:1}))
                        b=subst(b,{var:Poly({((s1,1),):1})})
                        out=add(out,scale(mksum(T2,s2,mksum(T,s1,b)),c)); continue
            rest[m]=c
        if len(rest)!=len(body.t):
            r=mk(rest)
            if not (type(r) is not Poly and r==0): out=add(out,_mksum1(T,var,r) if type(r) is Poly else mul(T,r))
            return out
    return _mksum1(T,var,body)
def _mksum1(T,var,body):
    if var not in deps(body): return mul(T,body)
    # pull out the common factor that does not depend on the index
    common=None
    for m in body.t:
        d={a:e for a,e in m if var not in adeps(a) and ATOMS[a][0] not in('ind','exp')}
        if common is None: common=d
        else: common={a:min(e,d.get(a,0)) if e>0 or d.get(a,0)>0 else max(e,d.get(a,0)) for a,e in common.items() if a in d and (d[a]>0)==(e>0)}
        if not common: break
    common={a:e for a,e in (common or {}).items() if e!=0}
    outer=None
    if common:
        outer=Poly({tuple(sorted(common.items())):1})
        body=mul(body,Poly({tuple(sorted((a,-e) for a,e in common.items())):1}))
    g=_ratgcd(list(body.t.values()))
    lead=min(body.t,key=mono_fp)
    if body.t[lead]<0: g=-g
    body=scale(body,norm(1/g))
    if outer is not None: return mul(outer,_mksum2(T,var,body,g))
    return _mksum2(T,var,body,g)
def _mksum2(T,var,body,g):
    h=sum_height(body)
    bv=boundvar(h)
    if bv!=var: body=subst(body,{var:Poly({((bv,1),):1})})
    a=new_atom('sum',(T,bv,body),(fpof(T),h,fpof(body)))
    SUMH[a]=h+1
    return Poly({((a,1),):norm(g)})

# ---------------------------------------------------------------- exact zero test
def clear_den(x):
    """multiply by base-atom denominators and expand positive integer powers of base atoms"""
    for _ in range(40):
        if type(x) is not Poly: return x
        mn={}
        allb=set()
        for m in x.t:
            for a,e in m:
                if ATOMS[a][0]=='base' and type(ATOMS[a][1]) is Poly: allb.add(a)
        if not allb: return fixnum(x)
        for a in allb:
            mn[a]=min((math.floor(dict(m).get(a,0)) for m in x.t))
        sh=tuple(sorted((a,-e) for a,e in mn.items() if e!=0))
        if sh: x=mul(x,Poly({sh:1}))
        if type(x) is not Poly: return x
        # expand
        again=False
        r=0; plain={}
        for m,c in x.t.items():
            hit=[(a,e) for a,e in m if a in allb and e>=1]
            if not hit: plain[m]=c; continue
            again=True
            d=dict(m); term=None
            for a,e in hit:
                n=math.floor(e); 
                if e-n==0: del d[a]
                else: d[a]=norm(Fraction(e)-n)
                f=ipow(ATOMS[a][1],n)
                term=f if term is None else mul(term,f)
            r=add(r,mul(term,Poly({tuple(sorted(d.items())):c}) if d else c))
        x=add(r,mk(plain))
        if not again: return fixnum(x)
    return x
def push_sums(x):
    """rewrite terms m*Sum(T,g) as Sum(T,m*g), merging equal ranges"""
    if type(x) is not Poly: return x,False
    groups={}; rest={}
    for m,c in x.t.items():
        ss=[(a,e) for a,e in m if ATOMS[a][0]=='sum']
        if len(ss)!=1 or ss[0][1]!=1: rest[m]=c; continue
        a=ss[0][0]; T,bv,b=ATOMS[a][1]
        mm=tuple(q for q in m if q[0]!=a)
        k=(key(T),)
        groups.setdefault(k,[T,[]])[1].append((mm,c,bv,b))
    if not groups: return x,False
    out=mk(rest); 
    v=new_atom('sym','$push','$push%d'%sum_height(x))
    for T,l in groups.values():
        s=0
        for mm,c,bv,b in l:
            b=subst(b,{bv:Poly({((v,1),):1})})
            s=add(s,mul(b,Poly({mm:c}) if mm else c))
        if is_zero(s): continue
        out=add(out,_mksum1(T,v,s) if type(s) is Poly else mul(T,s))
    return out,True
def congruence(x):
    """identify function/exponential atoms whose arguments are equal by exact arithmetic"""
    grp={}
    for m in x.t:
        for a,e in m:
            k,p=ATOMS[a]
            if k=='exp': grp.setdefault(('exp',),set()).add(a)
            elif k=='f' and p[0] in CONGRUENT: grp.setdefault(('f',p[0],len(p[1]))+tuple(y for y in p[1] if type(y) in(int,str)),set()).add(a)
    mp={}
    for k,s in grp.items():
        reps=[]
        for a in sorted(s):
            kk,p=ATOMS[a]
            ar=[p] if kk=='exp' else p[1]
            for b,br in reps:
                if all(same(u,v) or (type(u) is Poly and type(v) is not str and is_zero(sub(u,v))) for u,v in zip(ar,br)): mp[a]=Poly({((b,1),):1}); break
            else: reps.append((a,ar))
    if not mp: return x
    r=0
    for m,c in x.t.items():
        hit=[q for q in m if q[0] in mp]
        if not hit: r=add(r,Poly({m:c})); continue
        t=tuple(q for q in m if q[0] not in mp); t=Poly({t:c}) if t else c
        for a,e in hit: t=mul(t,rpow(mp[a],e))
        r=add(r,t)
    return r
CONGRUENT=set()
def is_zero(x):
    t=type(x)
    if t is Gate: return all(is_zero(l) for c,l in leaves(x) if feasible(c))
    if t is not Poly: return x==0
    if any(ATOMS[a][0]=='sum' for m in x.t for a,e in m):
        y,ch=push_sums(x)
        if type(y) is not Poly: return y==0
        x=y
    y=clear_den(x)
    if type(y) is not Poly: return y==0
    if any(ATOMS[a][0]=='sum' for m in y.t for a,e in m):
        y,ch=push_sums(y)
        if type(y) is not Poly: return y==0
    z=congruence(y)
    if z is not y:
        z=clear_den(z)
        if type(z) is not Poly: return z==0
        if any(ATOMS[a][0]=='sum' for m in z.t for a,e in m): z,ch=push_sums(z)
        return type(z) is not Poly and z==0
    return False
def equal(x,y):
    """are two values the same for every input?"""
    if same(x,y) and type(x) is not Poly: return True
    tx,ty=type(x),type(y)
    if tx is tuple or ty is tuple:
        return tx is ty and len(x)==len(y) and all(equal(a,b) for a,b in zip(x,y))
    if tx is Gate or ty is Gate:
        ok=[True]
        def f(a,b):
            return equal(a,b)
        r=lift(lambda a,b:(bool(equal(a,b))),x,y)
        if r is True: return True
        if r is False: return False
        return all(v or not feasible(c) for c,v in leaves(r))
    if tx is Ptr or ty is Ptr:
        return tx is ty and x.r is y.r and equal(x.o,y.o)
    if tx is bool or ty is bool or tx is FnPtr or ty is FnPtr: return x==y
    return is_zero(sub(x,y))
def feasible(c):
    """is a conjunction-of-thresholds condition contradictory?"""
    if c is True: return True
    if c is False: return False
    def rec(c,lits):
        if c is False: return False
        if c is True: return consistent(lits)
        return rec(c.hi,lits+[(c.v,True)]) or rec(c.lo,lits+[(c.v,False)])
    return rec(c,[])
def consistent(lits):
    lo={};hi={}
    for v,b in lits:
        k,p=CONDS[v]
        if k=='ge0':
            c=p.t.get((),0); body=add(p,-c); kk=body.fp
            # body+c>=0 : body>=-c
            if b: lo[kk]=max(lo.get(kk,-10**18),-c)
            else: hi[kk]=min(hi.get(kk,10**18),-c-1)
        if k=='fgt' :
            np_=neg(p); kk=_cidx.get(('fgt',np_.fp))
            if b and kk is not None and (kk,True) in lits: return False
    for k in lo:
        if k in hi and lo[k]>hi[k]: return False
    fl=[(p,b) for (k,p),b in ((CONDS[v],b) for v,b in lits) if k=='fgt']
    if len(fl)>1 and not diff_consistent(fl): return False
    # multi-atom: use facts
    for v,b in lits:
        k,p=CONDS[v]
        if k=='ge0':
            if b and known_nonneg(add(neg(p),-1)): return False
            if not b and known_nonneg(p): return False
    return True

def diff_consistent(fl):
    """difference constraints p>0 / p<=0 with p = u - v + c: shortest-path closure"""
    E={}; nodes={None}
    def edge(a,b,w,strict):     # a - b <= w (strict: <)
        k=(a,b); o=E.get(k)
        if o is None or (w,not strict)<(o[0],not o[1]): E[k]=(w,strict)
    for p,b in fl:
        k=Fraction(p.t.get((),0)); lin=[(m,c) for m,c in p.t.items() if m!=()]
        if len(lin)>2 or any(len(m)!=1 or m[0][1]!=1 for m,c in lin): continue
        if len(lin)==2:
            if lin[0][1]+lin[1][1]!=0: continue
            s=abs(Fraction(lin[0][1])); u=[m[0][0] for m,c in lin if c>0][0]; v=[m[0][0] for m,c in lin if c<0][0]
        elif len(lin)==1:
            (m,c),=lin; s=abs(Fraction(c)); u,v=(m[0][0],None) if c>0 else (None,m[0][0])
        else: continue
        k/=s; nodes|={u,v}
        # p>0: v-u < k ; p<=0: u-v <= -k
        if b: edge(v,u,k,True)
        else: edge(u,v,-k,False)
    for a in nodes:
        if a in POS: edge(None,a,Fraction(0),True)
    nodes=list(nodes)
    for z in nodes:
        for a in nodes:
            x=E.get((a,z))
            if x is None: continue
            for b in nodes:
                y=E.get((z,b))
                if y is not None: edge(a,b,x[0]+y[0],x[1] or y[1])
    for a in nodes:
        o=E.get((a,a))
        if o is not None and (o[0]<0 or (o[0]==0 and o[1])): return False
    return True
# ---------------------------------------------------------------- float literals
_PI=math.pi
_lit={}
def PI():
    return Poly({((new_atom('sym','pi','pi'),1),):1})
def literal(v):
    """exact meaning of a double literal: small rational, rational*pi^(k/2), rational*sqrt(2..), else the exact binary fraction"""
    r=_lit.get(v)
    if r is not None: return r[0]
    r=_literal(v); _lit[v]=(r,)
    return r
def _literal(v):
    if v!=v or v in (math.inf,-math.inf): return func('const',repr(v))
    if v==int(v) and abs(v)<1e15: return int(v)
    f=Fraction(v)
    if f.denominator<=1<<12: return f
    def close(a,b): return abs(a-b)<=abs(b)*2.3e-16
    q=f.limit_denominator(100000)
    if q!=0 and float(q)==v and q.denominator<=100000 and len(str(q.numerator))<=14: return norm(q)
    for k in (Fraction(1,2),1,Fraction(3,2),2,Fraction(5,2),Fraction(-1,2),-1,Fraction(-3,2),Fraction(-5,2),Fraction(5,4)):
        for s in (1,2,Fraction(1,2)):
            pk=_PI**float(k)*math.sqrt(float(s))
            q=Fraction(v/pk).limit_denominator(1000)
            if q!=0 and close(float(q)*pk,v) and abs(q.numerator)<=2000:
                return mul(mul(rpow(PI(),k),rpow(s,Fraction(1,2)) if s!=1 else 1),norm(q))
    return f

# ---------------------------------------------------------------- printing
def show(x,d=0):
    t=type(x)
    if t is Fraction: return '%d/%d'%(x.numerator,x.denominator) if x.denominator<10**9 else repr(float(x))
    if t is Poly:
        if d>12: return '...'
        ts=[]
        for m,c in list(x.t.items())[:14]:
            s='*'.join(showatom(a,d+1)+('' if e==1 else '^%s'%(e,)) for a,e in m)
            if not m: s=show(c)
            elif c==-1: s='-'+s
            elif c!=1: s=show(c)+'*'+s
            ts.append(s)
        r=' + '.join(ts).replace('+ -','- ')
        if len(x.t)>14: r+=' + ...(%d terms)'%len(x.t)
        return r
    if t is Gate: return '(%s ? %s : %s)'%(showcond(x.v,d+1),show(x.hi,d+1),show(x.lo,d+1)) if d<12 else '...'
    if t is tuple: return '<'+', '.join(show(y,d) for y in x)+'>'
    return repr(x)
def showcond(v,d=0):
    k,p=CONDS[v]
    if k=='ge0': return show(p,d)+'>=0'
    if k=='fgt': return show(p,d)+'>0.'
    if k=='feq': return show(p,d)+'==0.'
    return '%s:%s'%(k,p)
def showatom(a,d=0):
    k,p=ATOMS[a]
    if k=='sym': return str(p)
    if k=='exp': return 'exp(%s)'%show(p,d)
    if k=='base': return '(%s)'%show(p,d)
    if k=='f': return '%s(%s)'%(p[0],', '.join(show(y,d) for y in p[1]))
    if k=='ld':
        r,v,o,ty=p
        sz=8 if ty in('d','p') else int(ty[1:] or 8)//8 if ty[1:].isdigit() else 8
        oo=scale(o,Fraction(1,max(sz,1))) if type(o) in (int,Poly,Fraction) else o
        return '%s%s[%s]'%(r.name,'' if not v else '@%s'%v,show(oo,d))
    if k=='sum': return 'Sum{%s<%s}(%s)'%(showatom(p[1]),show(p[0],d),show(p[2],d))
    if k=='bv': return 't%d'%p
    if k=='ind': return '[%s]'%showcond(p,d)
    return '%s:%s'%(k,p)
