"""Abstract interpreter over LLVM IR with the algebraic domain of dom.py.

One pass over each function body in control-flow order: joins merge values into gated values, loops whose
trip count is a constant of the specialisation are peeled, all other loops are summarised by a fixpoint
(induction variables, accumulators -> Sum, anything else -> opaque loop variables).  No path enumeration.
"""
import sys, math
from fractions import Fraction
from dom import *
import dom
import llir
from llir import body as fbody
sys.setrecursionlimit(20000)

class AnalysisError(Exception):
    pass

# ---------------------------------------------------------------- CFG
class Loop:
    __slots__=('header','blocks','parent','items','key','depth')
    def __repr__(self): return '<loop %s>'%self.header
class CFG:
    def __init__(self,fn):
        fbody(fn)
        self.fn=fn
        self.succ={}
        for b in fn.order:
            t=fn.blocks[b][-1]
            if t.op=='br': s=list(dict.fromkeys(t.a))
            elif t.op=='switch': s=list(dict.fromkeys([t.a[0]]+[l for _,l in t.a[1]]))
            else: s=[]
            self.succ[b]=s
        entry=fn.order[0]
        # rpo
        seen=set(); post=[]
        st=[(entry,iter(self.succ[entry]))]; seen.add(entry)
        while st:
            b,it=st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s,iter(self.succ[s]))); break
            else:
                post.append(b); st.pop()
        rpo=post[::-1]; self.rpo=rpo; idx={b:i for i,b in enumerate(rpo)}
        pred={b:[] for b in rpo}
        for b in rpo:
            for s in self.succ[b]: pred[s].append(b)
        self.pred=pred
        # dominators
        idom={entry:entry}; ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                n=None
                for p in pred[b]:
                    if p in idom:
                        if n is None: n=p
                        else:
                            x,y=p,n
                            while x!=y:
                                while idx[x]>idx[y]: x=idom[x]
                                while idx[y]>idx[x]: y=idom[y]
                            n=x
                if idom.get(b)!=n: idom[b]=n; ch=True
        self.idom=idom
        def dominates(a,b):
            while True:
                if a==b: return True
                if b==entry: return False
                b=idom[b]
        loops={}
        for b in rpo:
            for s in self.succ[b]:
                if dominates(s,b):
                    L=loops.get(s)
                    if L is None:
                        L=Loop(); L.header=s; L.blocks={s}; loops[s]=L; L.parent=None; L.key=(fn.name,s)
                    work=[b]
                    while work:
                        x=work.pop()
                        if x not in L.blocks:
                            L.blocks.add(x); work+=pred[x]
                elif idx[s]<=idx[b]: raise AnalysisError('irreducible control flow in '+fn.name)
        ls=sorted(loops.values(),key=lambda l:len(l.blocks))
        for i,l in enumerate(ls):
            for m in ls[i+1:]:
                if l.header in m.blocks and l is not m: l.parent=m; break
        inner={}
        for b in rpo:
            for l in ls:
                if b in l.blocks: inner[b]=l; break
        self.loops=loops
        def items(parent):
            out=[]
            for b in rpo:
                if parent is not None and b not in parent.blocks: continue
                l=inner.get(b)
                if l is parent: out.append(b)
                else:
                    # outermost loop below parent containing b
                    while l is not None and l.parent is not parent: l=l.parent
                    if l is not None and l.header==b: out.append(l)
            return out
        for l in ls: l.items=items(l)
        self.items=items(None)
        self.phis={b:[i for i in fn.blocks[b] if i.op=='phi'] for b in rpo}
        self.code={b:[i for i in fn.blocks[b] if i.op!='phi'] for b in rpo}
_cfg={}
def cfg(fn):
    c=_cfg.get(id(fn))
    if c is None: c=CFG(fn); _cfg[id(fn)]=c; fn._keep=c
    return c

# ---------------------------------------------------------------- memory
_ver=[0]
def newver(tag='v'):
    _ver[0]+=1
    return '%s%d'%(tag,_ver[0])

class RS:
    """contents of one region"""
    __slots__=('ver','base','g','dirty','own')
    def __init__(self,ver=0,base=None):
        self.ver=ver; self.base=base; self.g={}; self.dirty=set(); self.own=None
    def copy(self,own):
        r=RS(self.ver,self.base); r.g={k:dict(v) for k,v in self.g.items()}; r.dirty=set(self.dirty); r.own=own
        return r
def split(off):
    """offset -> (symbolic key, constant)"""
    if type(off) is int: return 0,off
    if type(off) is Poly:
        c=off.t.get((),0)
        s=add(off,-c) if c else off
        return s.fp,c
    raise AnalysisError('offset %r'%(off,))

class Mem:
    __slots__=('r','shared')
    def __init__(self,r=None):
        self.r={} if r is None else r; self.shared=False
    def fork(self):
        return Mem(dict(self.r))
    def rd(self,reg):
        return self.r.get(reg)
    def wr(self,reg):
        rs=self.r.get(reg)
        if rs is None:
            rs=RS(); rs.own=self; self.r[reg]=rs
        elif rs.own is not self:
            rs=rs.copy(self); self.r[reg]=rs
        return rs

class Edge:
    __slots__=('src','pc','mem','phi')
    def __init__(self,src,pc,mem,phi): self.src=src; self.pc=pc; self.mem=mem; self.phi=phi

class Event:
    __slots__=('kind','reg','off','val','size','pc','ctx','ins','stack','old')
    def __repr__(self): return '%s %s[%s] = %s if %s'%(self.kind,self.reg,show(self.off) if self.off is not None else '',show(self.val) if self.val is not None else '',self.pc)

class LoopCtx:
    def __init__(self,loop,fn):
        self.loop=loop; self.fn=fn; self.t=None; self.T=None; self.phi={}; self.cells={}; self.havoc=set(); self.pc0=True; self.line=None
        self.mapped={}
    def __repr__(self): return '<ctx %s %s T=%s>'%(self.fn.name,self.loop.header,show(self.T) if self.T is not None else '?')

class Cls:
    """classification of one loop-carried location"""
    __slots__=('kind','init','step','lv','next','exit','name')
    def __repr__(self): return '%s(init=%s step=%s)'%(self.kind,show(self.init),show(self.step) if self.step is not None else None)

UNDEF=object()

class Interp:
    def __init__(self,*mods):
        self.mods=list(mods)
        self.funcs={}
        for m in mods:
            for n,f in m.functions.items():
                if not f.internal: self.funcs[n]=f
        self.hooks={}; self.align_hook=None
        self.fast=False           # all control flow resolved: states are handed from block to block without copying
        self.events=[]
        self.ctx=[]
        self.stack=[]
        self.globals={}
        self.track_alloca=False
        self.store_hook=None
        self.load_hook=None
        self.cmp_hook=None
        self.loopcache={}
        self.allocas={}
        self.nullable=set()       # region names of input pointers that may be NULL
        self.child_name=None
        self.unroll_limit=20000
        self.max_instr=None
        self.ninstr=0
        self.assumptions=set()
        self.fn_seen=set()
        self.uninit=[]            # loads from never-written local storage
        self.child_kind={}
        self.map_child=None
        self.final_depth=0
        self.trace_loads=None
        self.default_call=None
        self.heap_n=0
        self.vscale=None
    # ------------------------------------------------------------ locations
    def loc(self,ins):
        if ins is None: return '?'
        l=ins.fn.mod.loc(ins.dbg)
        return '%s:%d'%l if l and l[0] else ins.fn.name
    # ------------------------------------------------------------ operands
    def global_region(self,mod,name):
        g=mod.globals.get(name)
        owner=mod
        if g is None or (llir.global_init(g) is None):
            for m in self.mods:
                gg=m.globals.get(name)
                if gg is not None and llir.global_init(gg) is not None and not ('internal' in gg.linkage or 'private' in gg.linkage): g=gg; owner=m; break
        internal=g is not None and ('internal' in g.linkage or 'private' in g.linkage)
        k=(id(owner) if internal else None,name)
        r=self.globals.get(k)
        if r is None:
            r=Region('@'+name,'global',None,g); self.globals[k]=r
            if g is not None:
                try: r.size=g.mod.sizeof(g.type)
                except Exception: pass
        return r
    def const(self,c,mod):
        k=c[0]
        if k=='ci': return c[1]
        if k=='cf': return literal(c[1])
        if k=='cnull': return 0
        if k=='cundef': return self.undef(c[1],mod)
        if k=='czero': return self.zero(c[1],mod)
        if k=='cg':
            if self.find_fn(c[1],mod) is not None or c[1] in mod.decls: return FnPtr(c[1])
            return Ptr(self.global_region(mod,c[1]),0)
        if k=='cv' : return tuple(self.const(v,mod) for t,v in c[1])
        if k=='cagg': return tuple(self.const(v,mod) for t,v in c[1])
        if k=='cgep': return self.gep(mod,c[1],self.const(c[2],mod),[self.const(i,mod) for i in c[3]])
        if k=='ccast': return self.const(c[2],mod)
        if k=='csplat': return ('splat',self.const(c[2],mod))
        raise AnalysisError('constant %r'%(c,))
    def undef(self,t,mod):
        t=mod.resolve(t) if t[0]=='n' else t
        if t[0]=='x': return tuple(self.undef(t[2],mod) for _ in range(t[1]))
        if t[0]=='s': return tuple(self.undef(x,mod) for x in t[2])
        if t[0]=='a': return tuple(self.undef(t[2],mod) for _ in range(t[1]))
        return func('undef')
    def zero(self,t,mod):
        t=mod.resolve(t) if t[0]=='n' else t
        if t[0]=='x': return tuple(self.zero(t[2],mod) for _ in range(t[1]))
        if t[0]=='a': return tuple(self.zero(t[2],mod) for _ in range(t[1]))
        if t[0]=='s': return tuple(self.zero(x,mod) for x in t[2])
        if t==('i',1): return False
        return 0
    def ev(self,o,env,mod):
        if type(o) is str:
            return env[o]
        return self.const(o,mod)
    def evb(self,o,env,mod):
        v=env[o] if type(o) is str else self.const(o,mod)
        return self.tobool(v)
    def tobool(self,v):
        if v is True or v is False: return v
        if type(v) is int: return bool(v&1)
        if type(v) is Gate: return lift(lambda x: self.tobool(x),v)
        if type(v) is Poly: return cnot(eq0(v))
        raise AnalysisError('bool %r'%(v,))
    def toint(self,v):
        if v is True: return 1
        if v is False: return 0
        return v
    # ------------------------------------------------------------ gep
    def gep(self,mod,t,base,idx):
        off=0
        i0=self.toint(idx[0]) if type(idx[0]) is not Gate else lift(self.toint,idx[0])
        off=lift(lambda i: self.smul(i,mod.sizeof(t)),i0)
        for i in idx[1:]:
            t=mod.resolve(t)
            if t[0]=='s':
                s,offs=mod.layout(t); off=lift(lambda o,k=i: add(o,offs[k]),off); t=t[2][i]
            elif t[0] in 'ax':
                sz=mod.sizeof(t[2]); t=t[2]
                off=lift(lambda o,j: add(o,self.smul(j,sz)),off,i)
            else: raise AnalysisError('gep into %r'%(t,))
        return self.ptradd(base,off)
    def smul(self,i,sz):
        if type(i) is bool: i=int(i)
        return mul(i,sz)
    def ptradd(self,base,off):
        if type(base) is Ptr and type(off) is not Gate:
            return Ptr(base.r,add(base.o,off)) if not (type(off) is int and off==0) else base
        def f(b,o):
            if type(b) is Ptr: return Ptr(b.r,add(b.o,o))
            if isnum(b) and type(b) is not bool:
                if isnum(o) and o==0: return b
                return func('nullptr',b,o)
            if type(b) is Poly: return add(b,o)
            if type(b) is FnPtr: return b
            raise AnalysisError('ptr+ %r %r'%(b,o))
        return lift(f,base,off)
    # ------------------------------------------------------------ memory access
    def load1(self,mem,p,size,ty,st=None,ins=None):
        """scalar load; ty: 'd','f','p','i32',.."""
        if type(p) is Gate:
            pc=st.pc if st else True
            return lift(lambda q: self.load1(mem,q,size,ty,st,ins),p)
        if type(p) is not Ptr:
            if (isnum(p) and type(p) is not bool) or (type(p) is Poly):
                return func('badload',ty,fpof(p) if type(p) is Poly else p)
            raise AnalysisError('load through %r at %s'%(p,self.loc(ins)))
        if type(p.o) is Gate:
            return lift(lambda o: self.load1(mem,Ptr(p.r,o),size,ty,st,ins),p.o)
        if self.load_hook:
            r=self.load_hook(self,mem,p,size,ty,ins)
            if r is not None: return r
        if self.trace_loads is not None: self.trace_loads.append((p,size,ty,st.pc if st else True,tuple(self.ctx),ins))
        return self.load_rs(mem,p.r,mem.r.get(p.r),p.o,size,ty,ins)
    def load_rs(self,mem,reg,rs,off,size,ty,ins=None):
        if rs is None: return self.baseload(reg,0,None,off,size,ty,ins)
        sk,c=split(off)
        grp=rs.g.get(sk)
        if grp:
            cell=grp.get(c)
            if cell is not None:
                if cell[0]==size: return cell[1]
                return func('partial',reg.name,key(off),ty,newver())
            for k in range(1,16):
                for cc in (c-k,):
                    x=grp.get(cc)
                    if x is not None and cc+x[0]>c: return func('partial',reg.name,key(off),ty,newver())
        if rs.dirty and (len(rs.dirty)>1 or sk not in rs.dirty):
            # another symbolic group was written since this version: unknown
            if mem is None: return ld_atom(reg,newver(),off,ty)
            rs=mem.wr(reg)
            rs.ver=newver(); rs.base=None; rs.dirty=set()
        return self.baseload(reg,rs.ver,rs.base,off,size,ty,ins)
    def baseload(self,reg,ver,base,off,size,ty,ins=None):
        if base is not None:
            if base[0]=='zero': return 0
            if base[0]=='copy':
                # ('copy',lo,hi,srcreg,srcrs,delta,prev)
                _,lo,hi,sreg,srs,delta,pv=base
                if lo is None or (type(off) is int and lo<=off and off+size<=hi):
                    return self.load_rs(None,sreg,srs,add(off,delta),size,ty,ins)
                if type(off) is int and (off>=hi or off+size<=lo): return self.baseload(reg,pv[0],pv[1],off,size,ty,ins)
                return ld_atom(reg,ver,off,ty)
            if base[0]=='fill':
                _,lo,hi,val,pv=base
                if lo is None or (type(off) is int and lo<=off and off+size<=hi): return val
                if type(off) is int and (off>=hi or off+size<=lo): return self.baseload(reg,pv[0],pv[1],off,size,ty,ins)
                # symbolic offset into a constant-size filled region
                return ld_atom(reg,ver,off,ty) if not (lo==0 and reg.size is not None and type(reg.size) is int and hi>=reg.size) else val
            if base[0]=='map':
                # elementwise loop result: ('map',T,t,a,o0,{c:(size,val)},prevrs)
                _,T,t,a,o0,vals,prs=base
                d=sub(off,o0)
                for c,(sz,val) in vals.items():
                    q=sub(d,c)
                    tt=scale(q,Fraction(1,a))
                    if sz==size and is_integral(tt):
                        inr=cand(ge0(tt),ge0(sub(sub(T,1),tt)))
                        v=subst(val,{t:tt})
                        if inr is True: return v
                        return ite(inr,v,self.load_rs(None,reg,prs,off,size,ty,ins))
                return ld_atom(reg,ver,off,ty)
            if base[0]=='fn':
                return base[1](self,reg,ver,off,size,ty)
        if reg.kind=='global' and ver==0 and reg.info is not None:
            v=self.global_load(reg,off,size,ty)
            if v is not None: return v
        if reg.kind=='alloca' and ver==0:
            self.uninit.append((reg,off,ins))
        if ty=='p':
            return self.child(reg,ver,off)
        return ld_atom(reg,ver,off,ty)
    def child(self,reg,ver,off):
        k=(ver,key(off))
        r=reg.children.get(k)
        if r is None:
            if self.map_child:
                r=self.map_child(self,reg,ver,off)
            if r is None:
                nm=self.child_name(reg,off) if self.child_name else None
                kd=reg.kind if reg.kind!='alloca' else 'unknown'
                rr=Region(nm or '%s->%s'%(reg.name,show(off)),'in' if kd in('in','global') else kd)
                rr.info=(reg,ver,off)
                r=Ptr(rr,0)
            reg.children[k]=r
        return r
    def global_load(self,reg,off,size,ty):
        g=reg.info
        if llir.global_init(g) is None: return None
        if not g.const: return None
        if type(off) is not int: return None
        return self.init_at(g.mod,g.type,g.init,off,size,ty)
    def init_at(self,mod,t,c,off,size,ty):
        t=mod.resolve(t)
        while True:
            t=mod.resolve(t)
            if c[0]=='czero': return 0
            if t[0]=='s' and c[0]=='cagg':
                s,offs=mod.layout(t)
                j=max(i for i,o in enumerate(offs) if o<=off)
                off-=offs[j]; t,c=t[2][j],c[1][j][1]; continue
            if t[0] in 'ax' and c[0] in ('cagg','cv'):
                sz=mod.sizeof(t[2]); j=off//sz
                if j<0 or j>=len(c[1]): return func('oob',off,ty)
                off-=j*sz; t=t[2]; c=c[1][j][1]; continue
            break
        if off!=0: return None
        return self.const(c,mod)
    def store1(self,mem,p,size,v,st,ins,ty=None):
        if type(p) is Gate:
            for c,q in leaves(p):
                c2=restrict(c,st.pc)
                if c2 is False or cand(st.pc,c) is False: continue
                old=self.load1(mem,q,size,ty or 'd') if type(q) is Ptr else None
                s2=State(cand(st.pc,c),mem)
                self.store1(mem,q,size,ite(c2,v,old) if c2 is not True and old is not None else v,s2,ins,ty)
            return
        if type(p) is not Ptr:
            e=self.event('badstore',None,None,v,size,st,ins); return
        if type(p.o) is Gate:
            def mkp(o): return Ptr(p.r,o)
            return self.store1(mem,lift(mkp,p.o),size,v,st,ins,ty)
        if self.store_hook:
            r=self.store_hook(self,mem,p,size,v,st,ins)
            if r is not None: v=r
        reg=p.r
        if not self.fast and (reg.kind!='alloca' or self.track_alloca or self.ctx):
            self.event('store',reg,p.o,v,size,st,ins)
        rs=mem.wr(reg)
        sk,c=split(p.o)
        if rs.g and (len(rs.g)>1 or sk not in rs.g):
            for k in list(rs.g):
                if k!=sk: del rs.g[k]; 
        grp=rs.g.get(sk)
        if grp is None: grp=rs.g[sk]={}
        if c in grp and grp[c][0]!=size or size not in (8,):
            for k in range(c-15,c+size):
                x=grp.get(k)
                if x is not None and k!=c and k+x[0]>c: del grp[k]
        elif (c-4) in grp and grp[c-4][0]>4: del grp[c-4]
        elif (c+4) in grp and size>4: del grp[c+4]
        grp[c]=(size,v)
        rs.dirty.add(sk)
    def event(self,kind,reg,off,val,size,st,ins,old=None):
        e=Event(); e.kind=kind; e.reg=reg; e.off=off; e.val=val; e.size=size; e.pc=st.pc if st is not None else True; e.ctx=tuple(self.ctx); e.ins=ins
        e.stack=tuple(self.stack); e.old=old
        self.events.append(e); return e
    def tyname(self,t,mod):
        k=t[0]
        if k=='f': return 'd' if t[1]==64 else 'f%d'%t[1]
        if k=='i': return 'i%d'%t[1]
        if k=='p': return 'p'
        raise AnalysisError('type %r'%(t,))
    def load(self,mem,p,t,mod,st,ins):
        t=mod.resolve(t) if t[0]=='n' else t
        if t[0]=='x':
            sz=mod.sizeof(t[2])
            return tuple(self.load(mem,self.ptradd(p,i*sz),t[2],mod,st,ins) for i in range(t[1]))
        if t[0]=='s':
            s,offs=mod.layout(t)
            return tuple(self.load(mem,self.ptradd(p,o),x,mod,st,ins) for o,x in zip(offs,t[2]))
        if t[0]=='a':
            sz=mod.sizeof(t[2])
            return tuple(self.load(mem,self.ptradd(p,i*sz),t[2],mod,st,ins) for i in range(t[1]))
        v=self.load1(mem,p,mod.sizeof(t),self.tyname(t,mod),st,ins)
        if t==('i',1): return v
        return v
    def store(self,mem,p,v,t,mod,st,ins):
        t=mod.resolve(t) if t[0]=='n' else t
        if t[0]=='x' or t[0]=='a':
            sz=mod.sizeof(t[2])
            if type(v) is Gate: vs=[lift(lambda q,i=i:q[i],v) for i in range(t[1])]
            else: vs=v
            for i in range(t[1]): self.store(mem,self.ptradd(p,i*sz),vs[i],t[2],mod,st,ins)
            return
        if t[0]=='s':
            s,offs=mod.layout(t)
            for o,x,w in zip(offs,t[2],v): self.store(mem,self.ptradd(p,o),w,x,mod,st,ins)
            return
        self.store1(mem,p,mod.sizeof(t),self.toint(v) if type(v) is bool else v,st,ins,self.tyname(t,mod))
    # ------------------------------------------------------------ merging
    def merge_mem(self,parts):
        """parts: [(cond,Mem)] conds already relative to the join (last one is the default)"""
        if len(parts)==1: return parts[0][1]
        m0=parts[-1][1]
        for c,m in reversed(parts[:-1]):
            m0=self.merge2(c,m,m0)
        return m0
    def merge2(self,c,a,b):
        if a is b: return a
        out=Mem()
        for reg in set(a.r)|set(b.r):
            x=a.r.get(reg); y=b.r.get(reg)
            if x is y: out.r[reg]=x; continue
            if x is None: x=RS()
            if y is None: y=RS()
            if c is True: out.r[reg]=x; continue
            if c is False: out.r[reg]=y; continue
            n=RS(); n.own=out
            samebase=(x.ver==y.ver)
            if samebase: n.ver=x.ver; n.base=x.base
            else: n.ver=newver('m'); n.base=None
            n.dirty=x.dirty|y.dirty
            for sk in set(x.g)|set(y.g):
                gx=x.g.get(sk,{}); gy=y.g.get(sk,{})
                g={}
                for k in set(gx)|set(gy):
                    u=gx.get(k); v=gy.get(k)
                    if u is not None and v is not None:
                        if u[0]!=v[0]: continue
                        if u is v or u[1] is v[1]: g[k]=u
                        else: g[k]=(u[0],ite(c,u[1],v[1]))
                    elif sk==0 or True:
                        # missing on one side: read it there
                        w=u or v
                        side=y if u is not None else x
                        off=self.group_off(sk,k)
                        if off is None or (side.dirty-{sk}): continue
                        ty='p' if type(w[1]) is Ptr or (type(w[1]) is Gate and any(type(l) is Ptr for _,l in leaves(w[1]))) else ('d' if w[0]==8 else 'i%d'%(8*w[0]))
                        if reg.kind=='alloca' and side.ver==0 and side.base is None: continue
                        o=self.baseload(reg,side.ver,side.base,off,w[0],ty)
                        g[k]=(w[0],ite(c,w[1],o) if u is not None else ite(c,o,w[1]))
                if g: n.g[sk]=g
            out.r[reg]=n
        return out
    _goff={}
    def group_off(self,sk,c):
        if sk==0: return c
        s=Interp._goff.get(sk)
        return None if s is None else add(s,c)
    # ------------------------------------------------------------ execution
    def call(self,fn,args,st,ins=None):
        """interpret fn; returns value; st is updated"""
        if len(self.stack)>60: raise AnalysisError('recursion too deep in '+fn.name)
        G=cfg(fn)
        self.fn_seen.add(fn.name)
        env={}
        for (pn,pt,bv),a in zip(fn.params,args):
            env[pn]=a
        self.stack.append((fn.name,ins.dbg if ins is not None else None))
        rets=[]
        try:
            self.run_items(fn,G,None,G.items,{G.fn.order[0]:[Edge(None,st.pc,st.mem,{})]},env,None,None,rets)
        finally:
            self.stack.pop()
        if not rets:
            st.pc=False; st.mem=st.mem
            return func('noreturn')
        if len(rets)==1:
            v,pc,mem=rets[0]
        else:
            care=False
            for v,pc,mem in rets: care=cor(care,pc)
            cs=[restrict(pc,care) for v,pc,mem in rets]
            v=rets[-1][0]
            for c,(w,_,_) in zip(reversed(cs[:-1]),reversed(rets[:-1])): v=self.ite(c,w,v)
            mem=self.merge_mem([(c,m) for c,(_,_,m) in zip(cs,rets)])
            pc=care
        st.pc=pc; st.mem=mem
        return v
    def ite(self,c,a,b):
        if type(a) is tuple and type(b) is tuple and len(a)==len(b): return tuple(self.ite(c,x,y) for x,y in zip(a,b))
        return ite(c,a,b)
    def push(self,G,env,src,dst,pc,mem,inc,fork=True):
        mod=G.fn.mod
        phi={}
        for p in G.phis[dst]:
            for v,l in p.a:
                if l==src: phi[p.dst]=self.ev(v,env,mod) if not (type(v) is str and v not in env) else func('undef'); break
        inc.setdefault(dst,[]).append(Edge(src,pc,mem,phi))
    def merge_edges(self,edges):
        if len(edges)==1:
            e=edges[0]
            return e.pc,e.mem,e.phi
        # many edges from unrolled loops can carry pc False
        edges=[e for e in edges if e.pc is not False] or edges[:1]
        if len(edges)==1:
            e=edges[0]; return e.pc,e.mem,e.phi
        care=False
        for e in edges: care=cor(care,e.pc)
        cs=[restrict(e.pc,care) for e in edges]
        phi={}
        for k in edges[-1].phi:
            v=edges[-1].phi[k]
            for c,e in zip(reversed(cs[:-1]),reversed(edges[:-1])):
                v=self.ite(c,e.phi[k],v)
            phi[k]=v
        mem=self.merge_mem([(c,e.mem) for c,e in zip(cs,edges)])
        return care,mem,phi
    def run_items(self,fn,G,loop,items,inc,env,backs,exits,rets):
        """process items (blocks / inner loops) in RPO; inc: edges by destination block"""
        header=loop.header if loop is not None else None
        inside=loop.blocks if loop is not None else None
        def route(dst,edge_inc):
            # distribute edges produced into edge_inc
            for d,es in edge_inc.items():
                if d==header: backs.extend(es)
                elif inside is not None and d not in inside: exits.extend((d,e) for e in es)
                else: inc.setdefault(d,[]).extend(es)
        for it in items:
            if type(it) is Loop:
                es=inc.pop(it.header,None)
                if not es: continue
                out={}
                for d,e in self.exec_loop(fn,G,it,es,env): out.setdefault(d,[]).append(e)
                route(None,out)
            else:
                es=inc.pop(it,None)
                if not es: continue
                es=[e for e in es if e.pc is not False]
                if not es: continue
                pc,mem,phi=self.merge_edges(es)
                # single-successor states are handed over; anything with another holder is copied on write
                if not self.fast or mem.shared or len(es)>1: mem=mem.fork()
                env.update(phi)
                out={}
                self.exec_block(fn,G,it,pc,mem,env,out,rets)
                route(None,out)
    def exec_block(self,fn,G,b,pc,mem,env,out,rets):
        st=State(pc,mem)
        H=self.handlers
        for ins in G.code[b]:
            h=H.get(ins.op)
            if h is not None:
                h(self,ins,env,st)
                if st.pc is False: return
            else:
                self.ninstr+=1
                op=ins.op
                if op=='br':
                    if ins.x is None: self.push(G,env,b,ins.a[0],st.pc,st.mem,out)
                    elif ins.a[0]==ins.a[1]: self.push(G,env,b,ins.a[0],st.pc,st.mem,out)
                    else:
                        c=restrict(self.evb(ins.x,env,fn.mod),st.pc)
                        c1=cand(st.pc,c); c2=cand(st.pc,cnot(c))
                        if type(c1) is Gate and not feasible(c1): c1=False
                        if type(c2) is Gate and not feasible(c2): c2=False
                        if c1 is False: c2=st.pc
                        elif c2 is False: c1=st.pc
                        if c1 is not False and c2 is not False: st.mem.shared=True
                        if c1 is not False: self.push(G,env,b,ins.a[0],c1,st.mem,out)
                        if c2 is not False: self.push(G,env,b,ins.a[1],c2,st.mem,out)
                elif op=='switch':
                    st.mem.shared=True
                    v=self.ev(ins.x,env,fn.mod); rest=st.pc
                    for cv,l in ins.a[1]:
                        c=cand(rest,lift(lambda q:eq0(sub(self.toint(q),cv)),v))
                        c=restrict(c,True)
                        if c is not False and feasible(c): self.push(G,env,b,l,c,st.mem,out)
                        rest=cand(rest,cnot(lift(lambda q:eq0(sub(self.toint(q),cv)),v)))
                    if rest is not False and feasible(rest): self.push(G,env,b,ins.a[0],rest,st.mem,out)
                elif op=='ret':
                    v=self.ev(ins.a[0],env,fn.mod) if ins.a else None
                    if rets is not None: rets.append((v,st.pc,st.mem))
                elif op=='unreachable':
                    pass
                else: raise AnalysisError('instruction %s at %s'%(op,self.loc(ins)))
    # ------------------------------------------------------------ loops
    def run_body(self,fn,G,loop,edges,env,phi_override=None):
        backs=[];exits=[];rets=[]
        self.run_items(fn,G,loop,loop.items,{loop.header:list(edges)},env,backs,exits,rets)
        if rets: raise AnalysisError('return inside loop body without exit block in '+fn.name)
        return backs,exits
    def header_cond(self,fn,G,loop,pc,mem,phi,env):
        """evaluate only the header block; returns (cond to stay, stay target, exit target) or None"""
        b=loop.header
        t=G.code[b][-1]
        if t.op!='br' or t.x is None: return None
        ins_in=[s in loop.blocks for s in t.a]
        if all(ins_in): return None
        env.update(phi)
        n=len(self.events)
        st=State(pc,mem.fork())
        H=self.handlers
        ul=len(self.uninit)
        for ins in G.code[b][:-1]:
            H[ins.op](self,ins,env,st)
        del self.events[n:]
        del self.uninit[ul:]
        c=self.evb(t.x,env,fn.mod)
        if not ins_in[0]: c=cnot(c)
        return restrict(c,pc) if pc is not True else c
    def exec_loop(self,fn,G,loop,edges,env):
        pend=edges; exits=[]; k=0; start=None
        while True:
            pend=[e for e in pend if e.pc is not False]
            if not pend: return exits
            pc,mem,phi=self.merge_edges(pend)
            hc=self.header_cond(fn,G,loop,pc,mem,phi,env)
            if hc is not None and type(hc) is Gate:
                if start is not None and k<=2:
                    # the first iterations were decided by known facts only: summarise from the start
                    pc,mem,phi,mark,um=start
                    del self.events[mark:]; del self.uninit[um:]; exits=[]
                return exits+self.summarise(fn,G,loop,pc,mem,phi,env)
            mark=len(self.events); um=len(self.uninit)
            if k==0 and not self.fast:
                start=(pc,mem,phi,mark,um); mem=mem.fork()
            backs,ex=self.run_body(fn,G,loop,[Edge(None,pc,mem,phi)],env)
            if hc is None and backs and ex:
                del self.events[mark:]; del self.uninit[um:]
                return exits+self.summarise(fn,G,loop,pc,mem,phi,env)
            exits+=ex
            if not backs: return exits
            pend=backs; k+=1
            if k>self.unroll_limit: raise AnalysisError('loop does not terminate for constants: %s %s'%(fn.name,loop.header))
    def lvname(self,fn,nm): return nm.strip('%')
    def summarise(self,fn,G,loop,pc0,mem0,phi0,env):
        if self.fast: raise AnalysisError('trip count of the loop at %s in %s is not resolved'%(loop.header,fn.name))
        ctxkey=(tuple(self.stack),loop.key,tuple(c.loop.key for c in self.ctx))
        cached=self.loopcache.get(ctxkey)
        cx=LoopCtx(loop,fn); cx.pc0=pc0
        actid=newver('L')
        first=G.code[loop.header][0] if G.code[loop.header] else None
        cx.line=self.loc(first)
        tat=new_atom('sym','t_%s_%s'%(loop.header.strip('%'),actid),('t',actid)); NONNEG.add(tat)
        cx.t=tat; tv=Poly({((tat,1),):1})
        created=Region._n
        phis=G.phis[loop.header]
        cls={}
        for p in phis: cls[p.dst]=('opaque',None)
        wcells={}; whavoc=set(); wmap={}
        nomap=set()
        if cached:
            kinds,cellsk,havk,nomapk=cached
            for k,v in kinds.items():
                if k in cls: cls[k]=(v,None)
        T=None
        lvs={}
        def lvatom(nm):
            a=lvs.get(nm)
            if a is None:
                a=Poly({((new_atom('sym','%s~%s'%(nm,actid),('lv',actid,nm)),1),):1}); lvs[nm]=a
            return a
        inits=dict(phi0)
        steps={}
        mark=len(self.events); umark=len(self.uninit)
        cellcls={}
        stable=False
        dom_facts=list(dom.FACTS)
        isint={p.dst:(p.ty[0]=='i') for p in phis}
        for npass in range(14):
            del self.events[mark:]; del self.uninit[umark:]
            # header state
            phi={}
            for p in phis:
                k,s=cls[p.dst]; i=inits[p.dst]
                if k=='inv': phi[p.dst]=i
                elif k=='ind' and s is not None: phi[p.dst]=self.ptr_or_num_add(i,mul(s,tv))
                else:
                    a=lvatom(p.dst)
                    r=self.ptr_region(i)
                    phi[p.dst]=Ptr(r,a) if r is not None else a
            mem=mem0.fork()
            for reg in whavoc:
                rs=RS(newver('h')); rs.own=mem
                keep=mem0.r.get(reg)
                mem.r[reg]=rs
            for ck,(reg,off,size,isptr) in wcells.items():
                k,s=cellcls.get(ck,('opaque',None))
                if k=='inv': continue
                rs=mem.wr(reg)
                i=self.load_rs(None,reg,mem0.r.get(reg),off,size,'p' if isptr else ('d' if size==8 else 'i%d'%(size*8)))
                if k=='ind' and s is not None: v=self.ptr_or_num_add(i,mul(s,tv))
                else:
                    a=lvatom(('cell',ck)); r=self.ptr_region(i) if isptr else None
                    v=Ptr(r,a) if r is not None else a
                sk,c=split(off)
                self.note_group(off)
                rs.g.setdefault(sk,{})[c]=(size,v); 
            facts=[]
            if T is not None: facts=[sub(sub(T,1),tv)]
            # header condition -> trip count
            del dom.FACTS[:]; dom.FACTS.extend(dom_facts)
            hc=self.header_cond(fn,G,loop,True,mem,phi,env)
            T=self.trip(hc,tat)
            if T is not None: dom.FACTS.append(sub(sub(T,1),tv))
            self.ctx.append(cx)
            otl=self.trace_loads; self.trace_loads=lds=[]
            try:
                backs,exits=self.run_body(fn,G,loop,[Edge(None,True,mem,phi)],env)
            finally:
                self.ctx.pop(); self.trace_loads=otl
                if otl is not None: otl+=lds
            del dom.FACTS[:]; dom.FACTS.extend(dom_facts)
            if not backs:
                # body never loops back: treat as executed at most once
                return [(d,Edge(e.src,cand(pc0,e.pc),e.mem,e.phi)) for d,e in exits]
            bpc,bmem,bphi=self.merge_edges(backs)
            # write sets
            evs=self.events[mark:]
            nw={}; nh=set(whavoc) if npass>5 else set(); allst={}
            lset={tat}|{next(iter(a.t))[0][0] for a in lvs.values()}
            variant=self.variant_atoms(lset,created,actid,evs)
            for e in evs:
                if e.kind in('store','havoc') and e.reg.uid<=created:
                    if e.kind=='havoc': nh.add(e.reg); nomap.add(e.reg); continue
                    allst.setdefault(e.reg,[]).append(e)
            nmap={}
            for reg,l in allst.items():
                if reg in nh: continue
                inv=[]; var=[]
                for e in l:
                    d=deps(e.off) if type(e.off) is Poly else frozenset()
                    (var if any(variant(x) for x in d) else inv).append(e)
                if not var:
                    for e in inv:
                        self.note_group(e.off)
                        ck=(reg,key(e.off))
                        o=nw.get(ck)
                        isptr=self.is_ptr(e.val)
                        nw[ck]=(reg,e.off,e.size,isptr or (o[3] if o else False))
                elif not inv and reg not in nomap:
                    mp=self.try_map(var,tat,variant)
                    if mp is not None and not self.own_element(lds,reg,mp,tat): mp=None
                    if mp is not None: nmap[reg]=mp
                    else: nh.add(reg); 
                else: nh.add(reg)
            # a region once classified as mapped and then not: havoc
            for reg in list(wmap):
                if reg not in nmap and reg in allst:
                    nh.add(reg)
                    if npass>4: nomap.add(reg)
            # classification
            ncls={}
            steps_new={}
            def classify(nm,init,nxt,cur,lv,isptr):
                lva=next(iter(lv.t))[0][0]
                if isptr:
                    r=self.ptr_region(init)
                    if r is not None:
                        g=lift(lambda n: n.o if type(n) is Ptr and n.r is r else func('otherptr',newver()),nxt)
                        i0=lift(lambda n:n.o,init)
                        if equal(g,cur.o if type(cur) is Ptr else cur): pass
                        nxt=g; init=i0; cur=cur.o if type(cur) is Ptr else cur
                d=None
                if same(nxt,cur): return ('inv',None) if cls_kind!='ind' else ('ind',cls_step)
                try: d=lift(lambda n,c:sub(n,c),nxt,cur)
                except Exception: return ('opaque',None)
                if type(d) is not Gate and isnum(d) and d==0: return ('inv',None) if cls_kind!='ind' else ('ind',cls_step)
                dd=deps(d)
                if lva in dd: return ('opaque',None)
                if type(d) is not Gate and not any(variant(x) for x in dd): 
                    return ('ind',d)
                return ('acc',d)
            for p in phis:
                cls_kind,cls_step=cls[p.dst]
                if p.dst not in bphi: ncls[p.dst]=('opaque',None); continue
                isptr=p.ty==PTRT
                try: ncls[p.dst]=classify(p.dst,inits[p.dst],bphi[p.dst],phi[p.dst],lvatom(p.dst),isptr)
                except RecursionError: raise
            ncc={}
            for ck,(reg,off,size,isptr) in nw.items():
                cls_kind,cls_step=cellcls.get(ck,('opaque',None))
                rs=bmem.r.get(reg)
                nxt=self.load_rs(None,reg,rs,off,size,'p' if isptr else ('d' if size==8 else 'i%d'%(size*8)))
                if ck in wcells:
                    cur=self.load_rs(None,reg,mem.r.get(reg),off,size,'p' if isptr else ('d' if size==8 else 'i%d'%(size*8)))
                    init=self.load_rs(None,reg,mem0.r.get(reg),off,size,'p' if isptr else ('d' if size==8 else 'i%d'%(size*8)))
                    ncc[ck]=classify(ck,init,nxt,cur,lvatom(('cell',ck)),isptr)
                else: ncc[ck]=('opaque',None)
            # accumulators may not depend on other non-invariant, non-induction locations
            opaque_atoms=set()
            for nm,a in lvs.items():
                k=(ncls.get(nm) or ncc.get(nm[1] if type(nm) is tuple else None) or ('opaque',None))[0]
                opaque_atoms.add(next(iter(a.t))[0][0])
            def fix(kv):
                k,d=kv
                if k=='acc' and (deps(d)&opaque_atoms): return ('opaque',None)
                return kv
            ncls={k:fix(v) for k,v in ncls.items()}; ncc={k:fix(v) for k,v in ncc.items()}
            def sig(c,cc,w,h,mp): return ({k:(v[0],key(v[1]) if v[0]=='ind' else None) for k,v in c.items()},{k:(v[0],key(v[1]) if v[0]=='ind' else None) for k,v in cc.items()},set(w),set(h),set(mp))
            st_same = sig(ncls,ncc,nw,nh,nmap)==sig(cls,cellcls,wcells,whavoc,wmap)
            cls,cellcls,wcells,whavoc,wmap=ncls,ncc,nw,nh,nmap
            if st_same and npass>0: stable=True; break
        if not stable: raise AnalysisError('loop summary did not stabilise: %s %s (%s)'%(fn.name,loop.header,cx.line))
        self.loopcache[ctxkey]=({k:v[0] for k,v in cls.items()},None,None,None)
        # ---- exit
        ex=newver('X')
        Tv=T
        if Tv is None: Tv=func('trip',ex); 
        cx.T=Tv
        def exitval(nm,init,kd,isptr):
            k,d=kd
            if k=='inv': return init
            if k=='ind': return self.ptr_or_num_add(init,mul(d,Tv))
            if k=='acc':
                if isptr: return self.ptr_or_num_add(init,mksum(Tv,tat,d)) 
                return lift(lambda i:add(i,mksum(Tv,tat,d)),init)
            a=Poly({((new_atom('sym','%s@exit~%s'%(nm if type(nm) is str else show_cell(nm),actid),('lvx',ex,nm)),1),):1})
            r=self.ptr_region(init) if isptr else None
            return Ptr(r,a) if r is not None else a
        phix={}
        for p in phis:
            c=Cls(); c.kind,c.step=cls[p.dst]; c.init=inits[p.dst]; c.lv=lvatom(p.dst); c.next=bphi.get(p.dst); c.name=p.dst
            c.exit=exitval(p.dst,inits[p.dst],cls[p.dst],p.ty==PTRT); phix[p.dst]=c.exit; cx.phi[p.dst]=c
        memx=mem0.fork()
        for reg in whavoc:
            rs=RS(newver('x')); rs.own=memx; memx.r[reg]=rs; cx.havoc.add(reg)
        for reg,(a,o0,vals) in wmap.items():
            prev=mem0.r.get(reg) or RS()
            rs=RS(newver('x'),('map',Tv,tat,a,o0,vals,prev)); rs.own=memx; memx.r[reg]=rs
            cx.mapped[reg]=(a,o0,vals)
        for ck,(reg,off,size,isptr) in wcells.items():
            init=self.load_rs(None,reg,mem0.r.get(reg),off,size,'p' if isptr else ('d' if size==8 else 'i%d'%(size*8)))
            rs=memx.wr(reg); sk,c=split(off)
            v=exitval(('cell',ck),init,cellcls[ck],isptr)
            for k2 in list(rs.g):
                if k2!=sk: del rs.g[k2]
            rs.g.setdefault(sk,{})[c]=(size,v); rs.dirty.add(sk)
            q=Cls(); q.kind,q.step=cellcls[ck]; q.init=init; q.lv=lvatom(('cell',ck)); q.exit=v; q.name=ck
            q.next=self.load_rs(None,reg,bmem.r.get(reg),off,size,'p' if isptr else ('d' if size==8 else 'i%d'%(size*8)))
            cx.cells[ck]=q
        out=[]
        others=[(d,e) for d,e in exits if e.src!=loop.header] if hc is not None else exits
        if hc is not None:
            env.update(phix)
            n=len(self.events)
            st=State(pc0,memx)
            H=self.handlers
            um=len(self.uninit)
            for ins in G.code[loop.header][:-1]: H[ins.op](self,ins,env,st)
            del self.uninit[um:]
            t=G.code[loop.header][-1]
            o={}
            brk=False
            edges=[]
            for d,e in others:
                c=fresh_cond('break %s'%cx.line)
                c=cand(c,cnot(brk)); brk=cor(brk,c)
                out.append((d,Edge(e.src,cand(pc0,c),self.strip_loop_mem(e.mem,memx,cx),e.phi)))
            for s in t.a:
                if s not in loop.blocks:
                    self.push(G,env,loop.header,s,cand(pc0,cnot(brk)),st.mem,o)
            for d,es in o.items():
                for e in es: out.append((d,e))
        else:
            # exits from the body only (do-while / infinite loop with break)
            care=False
            for d,e in exits: care=cor(care,e.pc)
            for d,e in exits:
                out.append((d,Edge(e.src,cand(pc0,restrict(e.pc,care)),self.strip_loop_mem(e.mem,memx,cx),e.phi)))
        return out
    def strip_loop_mem(self,m,memx,cx): return m
    def note_group(self,off):
        if type(off) is Poly:
            c=off.t.get((),0); s=add(off,-c) if c else off
            Interp._goff.setdefault(s.fp if type(s) is Poly else 0,s)
    def is_ptr(self,v):
        return type(v) is Ptr or (type(v) is Gate and any(type(l) is Ptr for _,l in leaves(v)))
    def variant_atoms(self,lset,created,actid,evs):
        # symbols created by this or inner summaries are variant; loads of versions made inside are variant
        tagmin=int(actid[1:])
        memo={}
        def variant(a):
            r=memo.get(a)
            if r is not None: return r
            kind,p=ATOMS[a]
            r=False
            if a in lset: r=True
            elif kind=='sym':
                k=p
                m=_act.search(str(p))
                r=bool(m and int(m.group(1))>=tagmin)
            elif kind=='ld':
                v=p[1]
                if type(v) is str and int(_dig.search(v).group(0))>tagmin: r=True
                elif p[0].uid>created: r=True
            elif kind=='f':
                r=any(type(x) is str and _verre.match(x) and int(_dig.search(x).group(0))>tagmin for x in p[1])
            memo[a]=r
            return r
        return variant
    def ptr_region(self,v):
        if type(v) is Ptr: return v.r
        if type(v) is Gate:
            rs={l.r if type(l) is Ptr else None for _,l in leaves(v)}
            if len(rs)==1: return rs.pop()
        return None
    def ptr_or_num_add(self,i,d):
        def f(i,d):
            if type(i) is Ptr: return Ptr(i.r,add(i.o,d))
            return add(i,d)
        return lift(f,i,d)
    def try_map(self,evs,tat,variant):
        """all stores of the loop body to one region have offset a*t + o0 + c (c constant, inside one stride)"""
        e0=evs[0]
        if type(e0.off) is not Poly: return None
        a=e0.off.t.get(((tat,1),))
        if a is None or type(a) is not int or a==0: return None
        o0=sub(e0.off,mul(a,Poly({((tat,1),):1})))
        if any(variant(x) for x in deps(o0)): return None
        vals={}
        lo=hi=0
        for e in evs:
            if len(e.ctx)!=len(evs[0].ctx) : return None
            c=sub(sub(e.off,mul(a,Poly({((tat,1),):1}))),o0)
            if type(c) is not int: return None
            lo=min(lo,c); hi=max(hi,c+e.size)
            if e.ctx[-1] is not self.ctx_last(e): return None
            if e.pc is not True:
                # conditional element store: value undetermined
                return None
            vals[c]=(e.size,e.val)
        if hi-lo>abs(a): return None
        return (a,o0,vals)
    def own_element(self,lds,reg,mp,tat):
        """every load of a mapped region in the loop concerns the element of the same iteration"""
        a,o0,vals=mp
        for p,size,ty,pc,ctx,ins in lds:
            if p.r is not reg: continue
            for _,o in leaves(p.o):
                c=sub(sub(o,mul(a,Poly({((tat,1),):1}))),o0)
                if type(c) is not int: return False
                lo=min(vals); hi=max(k+v[0] for k,v in vals.items())
                if c+size>lo+abs(a) or c<hi-abs(a): return False
        return True
    def ctx_last(self,e): return e.ctx[-1]
    def trip(self,hc,tat):
        """number of iterations from the stay-condition (linear in t)"""
        if hc is None or type(hc) is not Gate: return None
        if hc.fp in EQNODES:
            d=EQNODES[hc.fp]
            if type(d) is tuple: # stay while d != 0
                p=d[1]; k=p.t.get(((tat,1),))
                if k in (1,-1):
                    r=add(p,mul(-k,Poly({((tat,1),):1})))
                    if tat in deps(r): return None
                    return mul(r,-k)
            return None
        # single threshold
        kind,p=CONDS[hc.v]
        if kind!='ge0': return None
        if hc.hi is True and hc.lo is False: e=p
        elif hc.hi is False and hc.lo is True: e=add(neg(p),-1)
        else:
            return None
        k=e.t.get(((tat,1),))
        if k is None: return None
        r=sub(e,mul(k,Poly({((tat,1),):1})))
        if tat in deps(r): return None
        if k>=0: return None
        k=-k
        if k==1: return add(r,1)
        if type(r) is int: return r//k+1
        return add(intdiv(r,k),1)

PTRT=llir.PTR
import re
_act=re.compile(r'~L(\d+)$|_L(\d+)$')
class _A:
    @staticmethod
    def search(s):
        m=re.search(r'[~_][LX](\d+)$',s)
        return m
_act=_A
_dig=re.compile(r'\d+'); _verre=re.compile(r'^[a-zA-Z]\d+$')
def show_cell(nm):
    return nm[1][0].name

def is_integral(p):
    if type(p) is int: return True
    if type(p) is Fraction: return False
    return all(type(c) is int for c in p.t.values())

class State:
    __slots__=('pc','mem')
    def __init__(self,pc,mem): self.pc=pc; self.mem=mem

def intdiv(x,k):
    """truncating division of a nonnegative integer value"""
    if type(x) is int:
        q=abs(x)//abs(k); return q if (x<0)==(k<0) else -q
    y=scale(x,Fraction(1,k))
    if is_integral(y): return y
    # split off the divisible part
    whole={};rest={}
    for m,c in x.t.items():
        if c%k==0 and m!=(): whole[m]=c//k
        else: rest[m]=c
    r=mk(rest)
    if whole and known_nonneg(r): return add(mk(whole),func('idiv',r,k) if type(r) is Poly else r//k)
    return func('idiv',x,k)
REFUNC['idiv']=intdiv

# ---------------------------------------------------------------- instruction semantics
def vmap(f,*xs):
    """lane-wise application"""
    for x in xs:
        if type(x) is tuple:
            n=len(x)
            return tuple(vmap(f,*[(y[i] if type(y) is tuple else y) for y in xs]) for i in range(n))
        if type(x) is Gate and any(type(l) is tuple for _,l in leaves(x)):
            return lift(lambda *ys: vmap(f,*ys),*xs)
    return f(*xs)

def L2(f):
    def g(x,y):
        tx=type(x); ty=type(y)
        if (tx is Poly or tx is int or tx is Fraction) and (ty is Poly or ty is int or ty is Fraction): return f(x,y)
        return lift(f,x,y)
    return g
def tonum(x):
    if x is True: return 1
    if x is False: return 0
    return x
def num2(f):
    def g(x,y):
        if type(x) is bool: x=int(x)
        if type(y) is bool: y=int(y)
        if type(x) is Ptr or type(y) is Ptr: return ptrarith(f,x,y)
        return f(x,y)
    return L2(g)
def ptrarith(f,x,y):
    if f is add:
        if type(x) is Ptr: return Ptr(x.r,add(x.o,y))
        return Ptr(y.r,add(x,y.o))
    if f is sub:
        if type(x) is Ptr and type(y) is Ptr:
            if x.r is y.r: return sub(x.o,y.o)
            return func('ptrdiff',x.r.name,y.r.name)
        if type(x) is Ptr: return Ptr(x.r,sub(x.o,y))
    return func('ptrop',x,y)

def i_and(x,y):
    if type(x) is bool and type(y) is bool: return x and y
    x=tonum(x);y=tonum(y)
    if type(x) is int and type(y) is int: return x&y
    if type(x) is int: x,y=y,x
    if type(y) is int:
        if y==-1: return x
        if y==0: return 0
        if y<0 and (-y)&(-y-1)==0:
            k=-y # round down to a multiple of k
            if type(x) is Poly:
                whole={};rest={}
                for m,c in x.t.items():
                    if m!=() and c%k==0: whole[m]=c
                    else: rest[m]=c
                c0=rest.get((),0); r0=c0%k
                w=c0-r0
                if w: whole[()]=whole.get((),0)+w; 
                rest[()]=r0
                if r0==0: rest.pop((),None)
                r=mk({m:c for m,c in rest.items()})
                if type(r) is int: return add(mk(whole),r&y)
                return add(mk(whole),func('rounddown',r,k))
        if y>0 and y&(y+1)==0:
            return func('mod2k',x,y+1)
    return func('and',x,y)
def i_or(x,y):
    if type(x) is bool and type(y) is bool: return x or y
    x=tonum(x);y=tonum(y)
    if type(x) is int and type(y) is int: return x|y
    if type(x) is int and x==0: return y
    if type(y) is int and y==0: return x
    return func('or',x,y)
def i_xor(x,y):
    if type(x) is bool and type(y) is bool: return x!=y
    x=tonum(x);y=tonum(y)
    if type(x) is int and type(y) is int: return x^y
    if type(y) is int and y==-1: return sub(-1,x)
    if type(x) is int and x==-1: return sub(-1,y)
    return func('xor',x,y)
def i_shl(x,y):
    x=tonum(x)
    if type(y) is int: return mul(x,1<<y)
    return func('shl',x,y)
def i_shr(x,y):
    x=tonum(x)
    if type(x) is int and type(y) is int: return x>>y
    if type(y) is int: return intdiv(x,1<<y)
    return func('shr',x,y)
def i_div(x,y):
    x=tonum(x)
    if type(y) is int and y!=0:
        return intdiv(x,y)
    return func('idiv2',x,y)
def i_rem(x,y):
    if type(y) is int and y!=0:
        if type(x) is int: return x-intdiv(x,y)*y
        return sub(x,mul(y,intdiv(x,y)))
    return func('irem2',x,y)
def wrapneg(t):
    return None

def b_and(x,y): return cand(x,y)
INT={'add':num2(add),'sub':num2(sub),'mul':num2(mul),'and':i_and,'or':i_or,'xor':i_xor,'shl':i_shl,'ashr':i_shr,'lshr':i_shr,'sdiv':i_div,'udiv':i_div,'srem':i_rem,'urem':i_rem}
def f_div(x,y):
    if type(y) is not Poly and y==0: return func('divzero',x)
    return div(x,y)
FLT={'fadd':add,'fsub':sub,'fmul':mul,'fdiv':f_div}

def h_fp(self,ins,env,st):
    self.ninstr+=1
    a,b=ins.a
    x=env[a] if type(a) is str else self.const(a,ins.fn.mod)
    y=env[b] if type(b) is str else self.const(b,ins.fn.mod)
    f=FLT[ins.op]
    tx=type(x);ty=type(y)
    if (tx is Poly or tx is int or tx is Fraction) and (ty is Poly or ty is int or ty is Fraction): env[ins.dst]=f(x,y)
    else: env[ins.dst]=vmap(L2(f),x,y)
def h_frem(self,ins,env,st):
    env[ins.dst]=vmap(lambda x,y:lift(lambda p,q:func('frem',p,q),x,y),*[self.ev(o,env,ins.fn.mod) for o in ins.a])
def h_int(self,ins,env,st):
    self.ninstr+=1
    mod=ins.fn.mod
    x=self.ev(ins.a[0],env,mod); y=self.ev(ins.a[1],env,mod)
    f=INT[ins.op]
    if ins.ty==('i',1):
        x=self.tobool(x); y=self.tobool(y)
        if ins.op=='and': env[ins.dst]=cand(x,y)
        elif ins.op=='or': env[ins.dst]=cor(x,y)
        elif ins.op in('xor','add','sub'): env[ins.dst]=ite(x,cnot(y),y)
        else: raise AnalysisError('i1 '+ins.op)
        return
    def g(p,q):
        r=f(p,q)
        if type(r) is int and ins.ty[0]=='i' and ins.ty[1] in (8,16,32,64):
            n=ins.ty[1]
            if r>=1<<n or r<-(1<<(n-1)): 
                r&=(1<<n)-1
                if r>=1<<(n-1): r-=1<<n
        return r
    env[ins.dst]=vmap(lambda p,q: lift(g,p,q),x,y)
def h_fneg(self,ins,env,st):
    env[ins.dst]=vmap(lambda x:lift(neg,x),self.ev(ins.a[0],env,ins.fn.mod))
def h_load(self,ins,env,st):
    self.ninstr+=1
    o=ins.a[0]
    p=env[o] if type(o) is str else self.const(o,ins.fn.mod)
    t=ins.ty
    if self.align_hook: self.align_hook(self,p,ins,st)
    if t==llir.DBL: env[ins.dst]=self.load1(st.mem,p,8,'d',st,ins)
    else: env[ins.dst]=self.load(st.mem,p,t,ins.fn.mod,st,ins)
def h_store(self,ins,env,st):
    self.ninstr+=1
    mod=ins.fn.mod
    v=self.ev(ins.a[0],env,mod); p=self.ev(ins.a[1],env,mod)
    if self.align_hook: self.align_hook(self,p,ins,st)
    self.store(st.mem,p,v,ins.ty,mod,st,ins)
def h_gep(self,ins,env,st):
    self.ninstr+=1
    mod=ins.fn.mod
    env[ins.dst]=self.gep(mod,ins.ty,self.ev(ins.a[0],env,mod),[self.ev(i,env,mod) for i in ins.a[1:]])
def h_alloca(self,ins,env,st):
    mod=ins.fn.mod
    n=self.ev(ins.a[0],env,mod) if ins.a else 1
    sz=mod.sizeof(ins.ty)
    r=Region('%s.%s'%(ins.fn.name,ins.dst.strip('%')),'alloca',lift(lambda q:mul(q,sz),n))
    r.info=ins; self.allocas[id(ins)]=r.size
    env[ins.dst]=Ptr(r,0)
def h_icmp(self,ins,env,st):
    self.ninstr+=1
    mod=ins.fn.mod
    x=self.ev(ins.a[0],env,mod); y=self.ev(ins.a[1],env,mod)
    pred=ins.x
    env[ins.dst]=vmap(lambda a,b:lift(lambda p,q:self.icmp(pred,p,q,ins),a,b),x,y)
def icmp(self,pred,x,y,ins):
    if type(x) is bool: x=int(x)
    if type(y) is bool: y=int(y)
    if type(x) is Ptr or type(y) is Ptr or type(x) is FnPtr or type(y) is FnPtr:
        if type(x) is Ptr and type(y) is Ptr and x.r is y.r: x=x.o; y=y.o
        else:
            nul=None
            if type(x) is Ptr and isnum(y) and y==0: nul=x
            if type(y) is Ptr and isnum(x) and x==0: nul=y
            if nul is not None:
                c=self.isnull(nul)
                if pred=='eq': return c
                if pred=='ne': return cnot(c)
            if type(x) is FnPtr or type(y) is FnPtr:
                e=(x==y) if type(x) is type(y) else False
                return e if pred=='eq' else not e
            c=cond_atom('ptrcmp','%r?%r'%(x,y),(key(x),key(y))) if type(x) is Ptr and type(y) is Ptr else cond_atom('ptrcmp',(x,y),(key(x),key(y)))
            if pred in('eq','ne'):
                if type(x) is Ptr and type(y) is Ptr and x.r is not y.r: c=False
                return c if pred=='eq' else cnot(c)
            return fresh_cond('ptr '+pred)
    if pred=='eq': return eq0(sub(x,y))
    if pred=='ne': return cnot(eq0(sub(x,y)))
    if pred in('sgt','ugt'): return ge0(sub(sub(x,y),1))
    if pred in('sge','uge'): return ge0(sub(x,y))
    if pred in('slt','ult'): return ge0(sub(sub(y,x),1))
    if pred in('sle','ule'): return ge0(sub(y,x))
    raise AnalysisError('icmp '+pred)
def isnull(self,p):
    r=p.r
    if r.kind in ('alloca','heap','global'): return False
    if r.name in self.nullable: return cond_atom('null',r.name,(r.uid,))
    return False
Interp.icmp=icmp; Interp.isnull=isnull
def h_fcmp(self,ins,env,st):
    self.ninstr+=1
    mod=ins.fn.mod
    x=self.ev(ins.a[0],env,mod); y=self.ev(ins.a[1],env,mod)
    pred=ins.x
    def f(a,b):
        if self.cmp_hook:
            r=self.cmp_hook(self,pred,a,b,ins)
            if r is not None: return r
        d=sub(a,b)
        if pred in('ogt','ugt'): return fgt(d)
        if pred in('olt','ult'): return fgt(neg(d))
        if pred in('oge','uge'): return cnot(fgt(neg(d)))
        if pred in('ole','ule'): return cnot(fgt(d))
        if pred in('oeq','ueq'): return feq(d)
        if pred in('one','une'): return cnot(feq(d))
        if pred=='ord': return True
        if pred=='uno': return False
        raise AnalysisError('fcmp '+pred)
    env[ins.dst]=vmap(lambda a,b:lift(f,a,b),x,y)
def h_cast(self,ins,env,st):
    self.ninstr+=1
    mod=ins.fn.mod
    v=self.ev(ins.a[0],env,mod)
    op=ins.op; src=ins.x; dst=ins.ty
    def f(x):
        if op in('sext','zext'):
            if type(x) is bool: return (1 if op=='zext' else -1) if x else 0
            if op=='zext' and type(x) is int and x<0: return x+(1<<(src[1] if src[0]=='i' else src[2][1]))
            return x
        if op=='trunc':
            if type(x) is bool: return x
            if type(x) is int:
                n=dst[1] if dst[0]=='i' else dst[2][1]
                x&=(1<<n)-1
                if n==1: return bool(x)
                if x>=1<<(n-1): x-=1<<n
                return x
            if dst==('i',1): return cnot(eq0(x)) if type(x) is Poly else bool(x&1)
            return x
        if op in('sitofp','uitofp'):
            return tonum(x)
        if op in('fptosi','fptoui'):
            if isnum(x): return int(x)
            return ftoi(x)
        return x
    if op=='bitcast' and (src[0]=='x' or dst[0]=='x'):
        if mod.sizeof(src)==mod.sizeof(dst) and src[0]==dst[0] and src[1]==dst[1]: env[ins.dst]=v; return
        env[ins.dst]=self.bitcast(v,src,dst,ins); return
    env[ins.dst]=vmap(lambda x:lift(f,x),v)
def ftoi(x):
    return func('ftoi',x)
def bitcast(self,v,src,dst,ins):
    if src[0]=='x' and dst[0]=='i' and dst[1]==src[1] and src[2]==('i',1):
        return ('mask',)+tuple(v)
    if src[0]=='i' and dst[0]=='x' and dst[2]==('i',1):
        if type(v) is int: return tuple(bool(v>>i&1) for i in range(dst[1]))
        if type(v) is tuple and v and v[0]=='mask': return tuple(v[1:])
    # vector of doubles <-> vector of ints: keep lanes when lane sizes agree
    if src[0]=='x' and dst[0]=='x' and src[1]==dst[1]: return v
    return func('bitcast',newver())
Interp.bitcast=bitcast
def h_select(self,ins,env,st):
    mod=ins.fn.mod
    c=self.ev(ins.a[0],env,mod); x=self.ev(ins.a[1],env,mod); y=self.ev(ins.a[2],env,mod)
    if type(c) is tuple:
        env[ins.dst]=tuple(self.ite(self.tobool(q),x[i],y[i]) for i,q in enumerate(c))
    else: env[ins.dst]=self.ite(self.tobool(c),x,y)
def h_extractelement(self,ins,env,st):
    mod=ins.fn.mod
    v=self.ev(ins.a[0],env,mod); i=self.ev(ins.a[1],env,mod)
    if type(i) is not int: env[ins.dst]=func('extract',newver()); return
    env[ins.dst]=v[i] if type(v) is tuple else lift(lambda q:q[i],v)
def h_insertelement(self,ins,env,st):
    mod=ins.fn.mod
    v=self.ev(ins.a[0],env,mod); x=self.ev(ins.a[1],env,mod); i=self.ev(ins.a[2],env,mod)
    v=list(v); v[i]=x; env[ins.dst]=tuple(v)
def h_shuffle(self,ins,env,st):
    mod=ins.fn.mod
    a=self.ev(ins.a[0],env,mod); b=self.ev(ins.a[1],env,mod); m=self.ev(ins.a[2],env,mod)
    both=tuple(a)+tuple(b)
    env[ins.dst]=tuple(both[i] if type(i) is int else func('undef') for i in m)
def h_extractvalue(self,ins,env,st):
    v=self.ev(ins.a[0],env,ins.fn.mod)
    for i in ins.x: v=lift(lambda q:q[i],v) if type(v) is Gate else v[i]
    env[ins.dst]=v
def h_insertvalue(self,ins,env,st):
    mod=ins.fn.mod
    v=self.ev(ins.a[0],env,mod); x=self.ev(ins.a[1],env,mod)
    def rec(v,idx):
        v=list(v); v[idx[0]]=x if len(idx)==1 else rec(v[idx[0]],idx[1:]); return tuple(v)
    env[ins.dst]=rec(v,ins.x)
def h_freeze(self,ins,env,st): env[ins.dst]=self.ev(ins.a[0],env,ins.fn.mod)
def h_nop(self,ins,env,st): pass

IGNORE=('llvm.dbg.','llvm.lifetime.','llvm.stackrestore','llvm.assume','llvm.experimental.noalias','llvm.prefetch')
def find_fn(self,name,mod):
    f=mod.functions.get(name)
    if f is not None: return f
    return self.funcs.get(name)
Interp.find_fn=find_fn
def h_call(self,ins,env,st):
    self.ninstr+=1
    mod=ins.fn.mod
    name=ins.x
    if type(name) is str and not name.startswith('%'):
        pass
    if type(name) is str and name in env and name.startswith('%'):
        p=env[name]
        if type(p) is FnPtr: name=p.name
        elif type(p) is Gate or type(p) in (Poly,Ptr):
            args=[self.ev(v,env,mod) if v is not None else None for t,v in ins.a]
            h=self.hooks.get('*indirect')
            if h:
                env_v=h(self,ins,p,args,st)
                if ins.dst: env[ins.dst]=env_v
                return
            raise AnalysisError('indirect call at '+self.loc(ins))
    elif type(name) is tuple:
        if name[0]=='asm':
            h=self.hooks.get('*asm')
            if h:
                v=h(self,ins,name,[self.ev(v,env,mod) for t,v in ins.a],st)
                if ins.dst: env[ins.dst]=v
                return
        raise AnalysisError('call of %r at %s'%(name,self.loc(ins)))
    for p in IGNORE:
        if name.startswith(p): return
    args=[self.ev(v,env,mod) if v is not None else None for t,v in ins.a]
    h=self.hooks.get(name)
    if h is None: h=BUILTIN.get(name)
    if h is None and name.startswith('llvm.'):
        h=intrinsic(name)
    if h is not None:
        v=h(self,ins,args,st)
        if v is not NOHOOK:
            if ins.dst: env[ins.dst]=v
            return
    f=self.find_fn(name,mod)
    if f is not None:
        # byval arguments: private copy
        args2=[]
        for (pn,pt,bv),a in zip(f.params,args):
            if bv and type(a) is Ptr:
                t,_=llir.parse_type(bv+' ',0,f.mod)
                r=Region(a.r.name+"'",'alloca' if a.r.kind=='alloca' else 'byval',f.mod.sizeof(t))
                self.memcpy(st,Ptr(r,0),a,f.mod.sizeof(t),ins)
                a=Ptr(r,0)
            args2.append(a)
        v=self.call(f,args2,st,ins)
        if ins.dst: env[ins.dst]=v
        return
    mv=_libmvec.match(name) if type(name) is str else None
    if mv and mv.group(1) in BUILTIN:
        env[ins.dst]=BUILTIN[mv.group(1)](self,ins,args,st); return
    if self.default_call:
        v=self.default_call(self,ins,name,args,st)
        if ins.dst: env[ins.dst]=v
        return
    raise AnalysisError('call of unknown function %s at %s'%(name,self.loc(ins)))
NOHOOK=object()
_libmvec=re.compile(r'_ZGV[a-z]N\d+v+_(\w+)$')   # glibc vector math: lane-wise versions

def memcpy(self,st,d,s,n,ins):
    def one(d,s):
        if type(d) is not Ptr or type(s) is not Ptr:
            self.event('badmem',None,None,None,None,st,ins); return
        e=self.event('memcpy',d.r,d.o,(s,n),None,st,ins)
        if self.ctx: self.event('havoc',d.r,d.o,None,None,st,ins)
        src=st.mem.r.get(s.r) or RS()
        src.own=None  # captured: later writes to the source region go to a copy
        if type(n) is int and type(d.o) is int:
            if type(s.o) is int and n<=4096 and not(src.dirty-{0}):
                # the copied range is exactly tiled by known cells: the same as storing them one by one
                sg=src.g.get(0) or {}; o=s.o; tile=[]
                while o<s.o+n:
                    x=sg.get(o)
                    if x is None or o+x[0]>s.o+n: break
                    tile.append((o-s.o+d.o,x)); o+=x[0]
                if o==s.o+n:
                    rs=st.mem.wr(d.r)
                    for k in list(rs.g):
                        if k!=0: del rs.g[k]
                    g=rs.g.setdefault(0,{})
                    for k in range(d.o-15,d.o+n):
                        x=g.get(k)
                        if x is not None and k+x[0]>d.o: del g[k]
                    g.update(tile); rs.dirty.add(0)
                    return
            rs=st.mem.wr(d.r)
            # drop overwritten cells, install a copy base
            g=rs.g.get(0)
            rs.g={0:{k:v for k,v in g.items() if k+v[0]<=d.o or k>=d.o+n}} if g else {}
            if type(s.o) is int:
                sg=src.g.get(0,{})
                dst=rs.g.setdefault(0,{})
                if not (src.dirty-{0}) :
                    for k,v in sg.items():
                        if s.o<=k and k+v[0]<=s.o+n: dst[k-s.o+d.o]=v
            rs.base=('copy',d.o,d.o+n,s.r,src,sub(s.o,d.o),(rs.ver,rs.base)); rs.ver=newver('c')
            rs.dirty=set()
        else:
            rs=RS(newver('c'),('copy',None,None,s.r,src,sub(s.o,d.o),None)); rs.own=st.mem
            st.mem.r[d.r]=rs
            self.assumptions.add('loads after a variable-length copy stay inside the copied range')
    if type(d) is Gate or type(s) is Gate:
        raise AnalysisError('gated memcpy at '+self.loc(ins))
    one(d,s)
Interp.memcpy=memcpy
def b_memcpy(self,ins,a,st):
    self.memcpy(st,a[0],a[1],a[2],ins); return a[0]
def b_memset(self,ins,a,st):
    d,v,n=a[0],a[1],a[2]
    if type(d) is not Ptr:
        if type(d) is Gate: raise AnalysisError('gated memset at '+self.loc(ins))
        self.event('badmem',None,None,None,None,st,ins); return d
    self.event('memset',d.r,d.o,(v,n),None,st,ins)
    if self.ctx: self.event('havoc',d.r,d.o,None,None,st,ins)
    val=0 if v==0 else func('fill',v)
    if type(n) is int and type(d.o) is int and (d.r.kind!='out' or True):
        rs=st.mem.wr(d.r)
        g=rs.g.get(0)
        rs.g={0:{k:c for k,c in g.items() if k+c[0]<=d.o or k>=d.o+n}} if g else {}
        rs.base=('fill',d.o,d.o+n,val,(rs.ver,rs.base)); rs.ver=newver('z'); rs.dirty=set()
    else:
        rs=RS(newver('z'),('fill',None,None,val,None)); rs.own=st.mem; st.mem.r[d.r]=rs
        self.assumptions.add('loads after a variable-length memset stay inside the range')
    return d
def b_malloc(self,ins,a,st):
    n=a[0]
    r=Region('heap#%s'%self.loc(ins),'heap',n); r.info=ins
    self.event('malloc',r,0,n,None,st,ins)
    return Ptr(r,0)
def b_calloc(self,ins,a,st):
    n=mul(a[0],a[1])
    r=Region('heap#%s'%self.loc(ins),'heap',n); r.info=ins
    self.event('malloc',r,0,n,None,st,ins)
    rs=RS(newver('z'),('zero',)); rs.own=st.mem; st.mem.r[r]=rs
    return Ptr(r,0)
def b_posix_memalign(self,ins,a,st):
    p=b_malloc(self,ins,[a[2]],st)
    self.store1(st.mem,a[0],8,p,st,ins,'p')
    return 0
def b_free(self,ins,a,st):
    p=a[0]
    self.event('free',None,None,p,None,st,ins)
    return None
def mf(name,f):
    def h(self,ins,a,st): return vmap(lambda *x:lift(f,*x),*a)
    return h
def f_pow(x,y):
    if isnum(y):
        try: return rpow(x,y)
        except Exception: return func('pow',x,y)
    return func('pow',x,y)
def f_sqrt(x):
    return sqrt_(x)
def f_fabs(x):
    if isnum(x): return abs(x)
    return func('fabs',x)
def f_fmax(x,y): return ite(fgt(sub(x,y)),x,y)
def f_fmin(x,y): return ite(fgt(sub(y,x)),x,y)
BUILTIN={'sqrt':mf('sqrt',f_sqrt),'exp':mf('exp',exp_),'pow':mf('pow',f_pow),'fabs':mf('fabs',f_fabs),'fmax':mf('fmax',f_fmax),'fmin':mf('fmin',f_fmin),
 'memcpy':b_memcpy,'memset':b_memset,'memmove':b_memcpy,'malloc':b_malloc,'calloc':b_calloc,'free':b_free,'posix_memalign':b_posix_memalign,
 'erf':mf('erf',lambda x:func('erf',x)),'log':mf('log',lambda x:func('log',x)),
 'abs':mf('abs',lambda x:abs(x) if isnum(x) else func('abs',x)),
}
def b_abort(self,ins,a,st):
    self.event('abort',None,None,None,None,st,ins); st.pc=False; return None
for n in ('abort','exit','__assert_fail','__assert_rtn'): BUILTIN[n]=b_abort
def b_print(self,ins,a,st):
    self.event('io',None,None,None,None,st,ins); return 0
for n in ('printf','fprintf','puts','putchar','fputs','fflush','fwrite','vfprintf','perror'): BUILTIN[n]=b_print
def f_fma(a,b,c): return add(mul(a,b),c)
def intrinsic(name):
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'): return b_memcpy
    if name.startswith('llvm.memset'): return b_memset
    if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma.'): return mf('fma',f_fma)
    if name.startswith('llvm.sqrt'): return BUILTIN['sqrt']
    if name.startswith('llvm.exp.'): return BUILTIN['exp']
    if name.startswith('llvm.pow.'): return BUILTIN['pow']
    if name.startswith('llvm.fabs'): return BUILTIN['fabs']
    if name.startswith('llvm.maxnum'): return BUILTIN['fmax']
    if name.startswith('llvm.minnum'): return BUILTIN['fmin']
    if name.startswith('llvm.stacksave'): return lambda self,ins,a,st: func('stacksave')
    if name.startswith('llvm.smax') or name.startswith('llvm.umax'): return mf('max',lambda x,y:ite(ge0(sub(x,y)),x,y))
    if name.startswith('llvm.smin') or name.startswith('llvm.umin'): return mf('min',lambda x,y:ite(ge0(sub(y,x)),x,y))
    if name.startswith('llvm.abs'): return BUILTIN['abs']
    if name.startswith('llvm.expect'): return lambda self,ins,a,st:a[0]
    if name.startswith('llvm.masked.load'): return b_maskload
    if name=='llvm.trap': return b_abort
    return None
def b_maskload(self,ins,a,st):
    # args: ptr, align, mask, passthru
    p,al,mask,pt=a
    mod=ins.fn.mod
    t=ins.ty
    sz=mod.sizeof(t[2]); out=[]
    for i in range(t[1]):
        c=self.tobool(mask[i])
        out.append(self.ite(c,self.load(st.mem,self.ptradd(p,i*sz),t[2],mod,st,ins) if c is not False else 0,pt[i]))
    return tuple(out)

Interp.handlers={'load':h_load,'store':h_store,'getelementptr':h_gep,'alloca':h_alloca,'icmp':h_icmp,'fcmp':h_fcmp,'select':h_select,'fneg':h_fneg,
 'extractelement':h_extractelement,'insertelement':h_insertelement,'shufflevector':h_shuffle,'extractvalue':h_extractvalue,'insertvalue':h_insertvalue,
 'freeze':h_freeze,'call':h_call,'tail':h_call,'musttail':h_call,'notail':h_call,'frem':h_frem,'fence':h_nop}
for op in INT: Interp.handlers[op]=h_int
for op in FLT: Interp.handlers[op]=h_fp
for op in llir.CASTS: Interp.handlers[op]=h_cast
