"""Typed analysis of generated integral routines. Primitive intermediates are typed as Theta(a,b,c,d; m; i,j): the auxiliary
integral of order m over four Cartesian functions for bra primitive pair i and ket primitive pair j. A stored value that is an
instance of a vertical (Obara-Saika) or horizontal (Head-Gordon-Pople) relation among typed values gets the type of the relation's
left-hand side; anything else stays an untyped polynomial."""
import os
import build, shapes, dom, gauss, msp, vecops
from dom import *
from absint import Interp, Mem, State, AnalysisError
from gauss import canon
dom.CONGRUENT.add('boys')
LET='spdfghiklmnoqrtuvw'
def am_of(s): return LET.index(s)
def nc(l): return (l+1)*(l+2)//2
Z3=(0,0,0)
def up(e,w,d,k=1):
    l=list(e); c=list(l[w]); c[d]+=k; l[w]=tuple(c); return tuple(l)
class Types:
    def __init__(self):
        self.atom={}; self.info={}; self.rc={}; self.geo={}; self.T={}
    def theta(self,e,m,ij):
        k=(e,m,ij); p=self.atom.get(k)
        if p is None:
            p=sym('T%s m%d %d,%d'%('|'.join('%d%d%d'%x for x in e),m,ij[0],ij[1])); self.atom[k]=p; self.info[next(iter(p.t))[0][0]]=k
        return p
    def vrr(self,e,w,d,m,ij):
        """right-hand side for Theta(e+1_w,d; m)"""
        k=(e,w,d,m,ij); r=self.rc.get(k)
        if r is not None: return r
        g=self.geo[ij]; bra=w<2; own,par=w,w^1; oth=(2,3) if bra else (0,1); t=self.theta
        s=g['p'] if bra else g['q']; aop=g['aop'] if bra else g['aoq']
        r=add(mul(g['X'][w][d],t(e,m,ij)),mul(g['wp'][d] if bra else g['wq'][d],t(e,m+1,ij)))
        for x in (own,par):
            n=e[x][d]
            if n: lo=up(e,x,d,-1); r=add(r,scale(mul(s,add(t(lo,m,ij),mul(aop,t(lo,m+1,ij)))),n))
        for x in oth:
            n=e[x][d]
            if n: r=add(r,scale(mul(g['pq'],t(up(e,x,d,-1),m+1,ij)),n))
        self.rc[k]=r
        return r
    def hrr(self,e,w,d,ij):
        """right-hand side for Theta(e+1_w,d) from Theta(e+1_partner) and Theta(e)"""
        k=('h',e,w,d,ij); r=self.rc.get(k)
        if r is not None: return r
        g=self.geo[ij]; D=g['AB'] if w<2 else g['CD']
        x=mul(D[d],self.theta(e,0,ij)); r=self.theta(up(e,w^1,d),0,ij)
        r=add(r,x) if w&1 else sub(r,x)
        self.rc[k]=r
        return r
    def split(self,v):
        """polynomial -> {(ij, weight): polynomial}, or None when it is not linear in typed atoms"""
        gr={}; info=self.info; wt=self.weights
        for mono,c in v.t.items():
            th=None; w=(); rest=mono
            for a,x in mono:
                k=info.get(a)
                if k is not None:
                    if th is not None or x!=1: return None
                    th=k
                elif a in wt: w+=((a,x),)
            if th is None: return None
            if w: rest=tuple(z for z in mono if z[0] not in wt)
            gr.setdefault((th[2],w),{})[rest]=c
        return gr
    def fold(self,v):
        """-> folded value (or v itself)"""
        if type(v) is not Poly: return v
        if len(v.t)==1:
            (mono,c),=v.t.items()
            if any(a in self.info for a,x in mono): return v
            b=self.base(v)
            return b if b is not None else v
        gr=self.split(v)
        if gr is None:
            b=self.base(v)
            return b if b is not None else v
        out=0; ch=False
        for (ij,w),t in gr.items():
            if len(t)==1: r=Poly(t)
            else:
                r=self.match(Poly(t),ij)
                if r is None: r=Poly(t)
                else: ch=True
            if w: r=mul(r,Poly({w:1}))
            out=add(out,r)
        return out if ch else v
    def match(self,g,ij):
        info=self.info; ths=[]
        for mono in g.t:
            for a,x in mono:
                if a in info: ths.append(info[a])
        m0=min(k[1] for k in ths)
        tot=lambda e: sum(sum(x) for x in e)
        low=[k[0] for k in ths if k[1]==m0]
        mx=max(tot(e) for e in low); seen=set()
        top=[e for e in low if tot(e)==mx]
        for e in dict.fromkeys(top):
            for w in range(4):
                for d in range(3):
                    if g==self.vrr(e,w,d,m0,ij): return self.theta(up(e,w,d),m0,ij)
                    if m0==0 and e[w][d]>0:
                        # e = f+1_w ; the relation yields f+1_partner
                        f=up(e,w,d,-1)
                        if g==self.hrr(f,w^1,d,ij): return self.theta(up(f,w^1,d),0,ij)
        # sums of several typed values of one primitive pair (an accumulator): nothing to type
        return None
    def base(self,v):
        """prefactor times Boys function of the primitive pair"""
        for mono,c in v.t.items():
            for a,x in mono:
                k=self.boys.get(a)
                if k is not None:
                    m,ij=k
                    if same(v,mul(self.geo[ij]['pref'],func('boys',m,self.geo[ij]['T']))): return self.theta((Z3,)*4,m,ij)
                    return None
        return None
class Side:
    """one multi-shell-pair argument: symbols per primitive, laid out as the library pads it"""
    def __init__(self,nm,nps,L,n_per=None,extra_clip=None):
        self.nm=nm; self.plan=msp.Plan(nps,L); self.nps=nps; self.of=[]; N=self.plan.total
        self.idx=[None]*N
        for k,n in enumerate(nps):
            for i in range(n): self.idx[self.plan.start[k]+i]=k
class Case:
    """a routine applied to bra pairs with pn primitives each and ket pairs with qn"""
    def __init__(self,lay,L,pn,qn,der=True,screens=None,tol=0,simple=False,clipP=None,clipQ=None):
        self.L=L; self.mem=Mem(); self.Ty=Types(); self.lay=lay; self.tol=tol; Ty=self.Ty
        self.P=self.side('P',pn,L,screens and screens[0],der,clipP); self.Q=self.side('Q',qn,L,screens and screens[1],der,clipQ)
        p,q=self.P,self.Q
        Ty.weights=set(); Ty.boys={}
        for s in (p,q):
            for f in ('alpha2','beta2'):
                for x in s['v'].get(f,[]):
                    if type(x) is Poly: Ty.weights.add(next(iter(x.t))[0][0])
        if simple: # one primitive each: name the distance directly
            for d,x in enumerate('xyz'): self.setv(p,x,0,add(q['v'][x][0],sym('R'+x)))
        for i in p['real']:
            for j in q['real']:
                self.geom(i,j)
        self.work=Region('work','out'); self.out=Region('integrals','out')
    typed=True
    def setv(self,s,f,i,v): s['v'][f][i]=v; shapes.arr(self.mem,s['r'][f],[v],base=8*i)
    def side(self,nm,nps,L,screens,der,clip):
        pl=msp.Plan(nps,L); N=pl.total; reg=Region(nm,'in'); lay=self.lay; mem=self.mem; v={}; rr={}
        fields=msp.PRIM if der else [f for f in msp.PRIM if f not in('alpha2','beta2')]
        own=[None]*N; real=[]
        for k,n in enumerate(nps):
            for i in range(n): own[pl.start[k]+i]=k; real.append(pl.start[k]+i)
        for f in fields:
            pad=1 if f in('alpha','alpha2','beta2') else 0
            v[f]=[pad if own[i] is None else (shapes.pos if f=='alpha' else sym)('%s.%s[%d]'%(nm,f,i)) for i in range(N)]
            r=Region('%s.%s'%(nm,f),'in',8*N); rr[f]=r; shapes.arr(mem,r,v[f]); shapes.setf(mem,reg,lay,0,f,Ptr(r,0))
        for f in msp.PAIR:
            v[f]=[sym('%s.%s[%d]'%(nm,f,k)) for k in range(len(nps))]; r=Region('%s.%s'%(nm,f),'in',8*len(nps)); rr[f]=r; shapes.arr(mem,r,v[f]); shapes.setf(mem,reg,lay,0,f,Ptr(r,0))
        r=Region(nm+'.nprim12','in',4*len(nps)); rr['nprim12']=r; shapes.arr(mem,r,list(nps),size=4); shapes.setf(mem,reg,lay,0,'nprim12',Ptr(r,0))
        S=lambda f,x:shapes.setf(mem,reg,lay,0,f,x)
        S('nprim',sum(nps)); S('nshell12',len(nps)); S('nshell12_clip',len(nps) if clip is None else clip); S('memsize',0); S('ptr',Ptr(rr['x'],0))
        if screens is not None:
            sc=[0]*N
            for i,x in zip(real,screens): sc[i]=x
            r=Region(nm+'.screen','in',8*N); rr['screen']=r; shapes.arr(mem,r,sc); S('screen',Ptr(r,0)); S('screen_max',max(sc)); v['screen']=sc
        else: S('screen',0); S('screen_max',10**99)
        return dict(reg=reg,plan=pl,own=own,real=real,v=v,r=rr,nps=nps,clip=len(nps) if clip is None else clip)
    def geom(self,i,j):
        p,q=self.P,self.Q; a=p['v']['alpha'][i]; b=q['v']['alpha'][j]; s=inv(add(a,b)); PQ=[sub(p['v'][x][i],q['v'][x][j]) for x in 'xyz']
        R2=add(add(mul(PQ[0],PQ[0]),mul(PQ[1],PQ[1])),mul(PQ[2],PQ[2]))
        T=mul(R2,mul(mul(a,b),s)); aop=neg(mul(b,s)); aoq=neg(mul(a,s))
        g=dict(p=scale(inv(a),Fraction(1,2)),q=scale(inv(b),Fraction(1,2)),pq=scale(s,Fraction(1,2)),aop=aop,aoq=aoq,T=T,
            wp=[mul(aop,x) for x in PQ],wq=[neg(mul(aoq,x)) for x in PQ],pref=mul(mul(p['v']['prefac'][i],q['v']['prefac'][j]),rpow(s,Fraction(1,2))),
            X=[[p['v']['PA_'+x][i] for x in 'xyz'],[p['v']['PB_'+x][i] for x in 'xyz'],[q['v']['PA_'+x][j] for x in 'xyz'],[q['v']['PB_'+x][j] for x in 'xyz']],
            AB=[p['v']['AB_'+x][p['own'][i]] for x in 'xyz'],CD=[q['v']['AB_'+x][q['own'][j]] for x in 'xyz'])
        self.Ty.geo[i,j]=g; self.Ty.T[T]=(i,j)
    def boys(self,I,ins,args,st):
        F,T,n=args; mod=ins.fn.mod
        if type(n) is not int: raise AnalysisError('order of the Boys function not resolved at %s'%I.loc(ins))
        lanes=T if type(T) is tuple else (T,)
        for m in range(n+1):
            for q,t in enumerate(lanes):
                v=func('boys',m,t)
                ij=self.Ty.T.get(t)
                if ij is not None and type(v) is Poly: self.Ty.boys[next(iter(v.t))[0][0]]=(m,ij)
                I.store(st.mem,I.ptradd(F,8*(m*len(lanes)+q)),v,('f',64),mod,st,ins)
        self.norder=max(getattr(self,'norder',0),n)
        return None
    def run(self,mods,name,extra_hooks=None,args=None,worksize=None,outsize=None,prepare=None):
        I=Interp(*mods); self.I=I; I.hooks['boys_F_split']=self.boys; I.track_alloca=True; vecops.vec_hooks(I)
        if extra_hooks: I.hooks.update(extra_hooks)
        fn=None
        for m in mods:
            if name in m.functions: fn=m.functions[name]
        if fn is None: raise AnalysisError('%s not found'%name)
        self.work.size=worksize; self.out.size=outsize; self.over=[]; self.wtop=0; self.otop=0; Ty=self.Ty; self.illegal=[]
        fold=Ty.fold if self.typed else (lambda v:v); work,out=self.work,self.out
        def acc(p,size,what,ins):
            r=p.r; o=p.o
            if type(o) is not int: self.over.append((what,r.name,'unresolved offset',I.loc(ins))); return
            if r is work: self.wtop=max(self.wtop,o+size)
            elif r is out and what=='write': self.otop=max(self.otop,o+size)
            if o<0 or (type(r.size) is int and o+size>r.size): self.over.append((what,r.name,'byte %d..%d of %s'%(o,o+size,r.size),I.loc(ins)))
        self.last=last={}
        def track(p,v,ins):
            if type(p.o) is int:
                for q,x in enumerate(v): last[p.r,p.o+8*q]=(x,ins)
        def sh(I,mem,p,size,v,st,ins):
            acc(p,size,'write',ins)
            if p.r.kind in('in','global'): self.illegal.append(('write',p.r.name,I.loc(ins)))
            if type(v) is tuple:
                if size==8*len(v):
                    v=tuple([fold(x) for x in v]); track(p,v,ins)
                    return v
            elif size==8:
                v=fold(v); track(p,(v,),ins)
                return v
        def lh(I,mem,p,size,ty,ins): acc(p,size,'read',ins)
        I.store_hook=sh; I.load_hook=lh; I.fast=True
        if prepare: prepare(I)
        st=State(True,self.mem)
        a=args if args is not None else [Ptr(self.P['reg'],0),Ptr(self.Q['reg'],0),self.tol,Ptr(self.work,0),Ptr(self.out,0)]
        self.ret=I.call(fn,a,st); self.end=st
        for e in I.events: # block fills have extents too
            if e.kind!='memset': continue
            n=e.val[1]; r,o=e.reg,e.off
            if type(n) is not int or type(o) is not int: self.over.append(('write',r.name,'fill of unresolved extent',I.loc(e.ins))); continue
            if n<=0: continue
            if r is work: self.wtop=max(self.wtop,o+n)
            elif r is out: self.otop=max(self.otop,o+n)
            if r.kind in('in','global'): self.illegal.append(('write',r.name,I.loc(e.ins)))
            if o<0 or (type(r.size) is int and o+n>r.size): self.over.append(('write',r.name,'fill of byte %d..%d of %s'%(o,o+n,r.size),I.loc(e.ins)))
        return I
    def suspects(self,n=2):
        """intermediates whose final value is a combination of typed values that instantiates no relation, in order of creation"""
        out=[]
        for (r,o),(v,ins) in self.last.items():
            if r is self.out or type(v) is not Poly or len(v.t)<2: continue
            g=self.Ty.split(v)
            if g and len(g)==1:
                out.append('%s[%d] at %s'%(r.name,o//8,self.I.loc(ins)))
                if len(out)>=n: break
        return out
    def where(self,off):
        x=self.last.get((self.out,off))
        return self.I.loc(x[1]) if x else ''
    def outputs(self):
        rs=self.end.mem.r.get(self.out); cells=rs.g.get(0,{}) if rs else {}; flat={}
        for o,(sz,v) in cells.items():
            if type(v) is tuple:
                for q,x in enumerate(v): flat[o+8*q]=x
            else: flat[o]=v
        b=rs.base if rs else None
        while type(b) is tuple and b[0]=='fill' and b[1] is not None:
            for o in range(b[1],b[2],8): flat.setdefault(o,b[3])
            b=b[4][1] if b[4] else None
        other=[g for g in rs.g if g!=0] if rs else []
        return flat,other
def components(am): 
    import itertools
    return list(itertools.product(*[canon(a) for a in am]))
