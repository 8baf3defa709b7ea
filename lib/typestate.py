"""Ownership of heap storage held in local variables: a path-sensitive typestate over the SSA graph of one function.
A state maps SSA names to 'own' (live block), 'freed', 'null'; blocks that are stored to memory or returned have escaped
and are not tracked any further. Reported: release of a block already released, use of a released block, a path that
returns while a block is still held."""
import re
from absint import cfg
ALLOC={'malloc','calloc','aligned_alloc','realloc','_mm_malloc'}
FREE={'free','_mm_free'}
def wrappers(mods):
    """functions of the analysed modules that only hand out or release heap storage"""
    al,fr=set(ALLOC),set(FREE)
    for m in mods:
        for n,f in m.functions.items():
            G=cfg(f); calls=[i for b in f.order for i in f.blocks[b] if i.op in('call','tail') and type(i.x) is str and not i.x.startswith('llvm.')]
            names={i.x for i in calls}
            if f.ret==('p',) and names and names<=(ALLOC|{'posix_memalign'}): al.add(n)
            elif f.ret in(('v',),('void',),None) or True:
                if names and names<=FREE and len(f.params)==1 and all(i.a and i.a[0][1]==f.params[0][0] for i in calls): fr.add(n)
    return al,fr
def mayfree(mod,fr):
    r=getattr(mod,'_mayfree',None)
    if r is not None: return r
    calls={n:{i.x for b in cfg(f).fn.order for i in f.blocks[b] if i.op in('call','tail') and type(i.x) is str} for n,f in mod.functions.items()}
    r=set(); ch=True
    while ch:
        ch=False
        for n,cs in calls.items():
            if n not in r and (cs&fr or cs&r): r.add(n); ch=True
    mod._mayfree=r
    return r
def isnull(v): return v==('cnull',) or v==('ci',0)
class State:
    """n: SSA name -> block (its allocation site) or 'null'; b: block -> 'own' | 'freed'"""
    __slots__=('n','b','facts')
    def __init__(self,n,b,facts): self.n=n; self.b=b; self.facts=facts
    def key(self): return (frozenset(self.n.items()),frozenset(self.b.items()),frozenset(self.facts.items()))
def analyse(fn,al,fr,loc):
    # without branch correlation first: an over-approximation of the paths, so silence is final
    r,s,n=analyse1(fn,al,fr,loc,False)
    if not r: return r,s,n
    return analyse1(fn,al,fr,loc,True)
def analyse1(fn,al,fr,loc,corr):
    """-> list of (kind, message, location), number of allocation sites, number of states"""
    G=cfg(fn); out={}; sites=0
    ins_of={i.dst:i for b in fn.order for i in fn.blocks[b] if i.dst}
    mf=mayfree(fn.mod,fr)
    def ck(name):
        """canonical form of a branch condition"""
        i=ins_of.get(name)
        if i is None: return ('v',name)
        if i.op=='icmp': return ('icmp',i.x if type(i.x) in(str,tuple) else str(i.x),)+tuple(strip(a) if type(a) is str else a for a in i.a)
        return ('v',name)
    def strip(n):
        i=ins_of.get(n)
        while i is not None and i.op in('sext','zext','bitcast','freeze'): n=i.a[0]; i=ins_of.get(n)
        return n
    uses={}
    for b in fn.order:
        t=fn.blocks[b][-1]
        if t.op=='br' and t.x is not None:
            k=ck(t.x if type(t.x) is str else None); uses[k]=uses.get(k,0)+1
    derived={}  # pointers computed from a block pointer
    def root(n):
        i=ins_of.get(n) if type(n) is str else None
        while i is not None and i.op in('getelementptr','bitcast','freeze'):
            n=i.a[0] if i.op!='getelementptr' else i.a[0]
            n=n[1] if type(n) is tuple and len(n)==2 and type(n[1]) is str else n
            i=ins_of.get(n) if type(n) is str else None
        return n
    for b in fn.order:
        for i in fn.blocks[b]:
            if i.op in('call','tail') and type(i.x) is str and i.x in al: sites+=1
    if not sites: return [],0,0
    import collections
    entry=fn.order[0]; seen={}; work=collections.deque(); n=0
    def push(b,s):
        k=s.key(); q=seen.setdefault(b,set())
        if k in q: return
        if len(q)>4000: out[('states',b)]=('undecided','too many ownership states',fn.name); return
        q.add(k); work.append((b,s))
    push(entry,State({},{},{}))
    def note(kind,msg,i): out.setdefault((kind,id(i)),(kind,msg,loc(i)))
    def base(v):
        if type(v) is tuple and len(v)==2 and type(v[1]) is str and v[0] not in('ci','cf','cg'): v=v[1]
        return root(v) if type(v) is str and v.startswith('%') else None
    while work:
        b,s=work.popleft(); n+=1; N=dict(s.n); B=dict(s.b); facts=dict(s.facts); dead=False
        def st(v):
            r=base(v); k=N.get(r)
            return (k,B.get(k)) if k not in(None,'null') else (k,None)
        for i in fn.blocks[b]:
            if i.op=='phi': continue
            if i.op in('call','tail') and type(i.x) is str:
                if i.x in al:
                    if B.get(i.dst)=='own': note('leak','the block requested here in an earlier round is still held when a new one is requested',i)
                    for q in [q for q,k in N.items() if k==i.dst]: del N[q]
                    N[i.dst]=i.dst; B[i.dst]='own'; continue
                if i.x in fr:
                    p=i.a[0][1]
                    if isnull(p): continue
                    k,x=st(p)
                    if x=='freed': note('double free','a block is released twice',i)
                    elif x=='own': B[k]='freed'
                    continue
                if i.x.startswith('llvm.dbg'): continue
                if i.x in('abort','exit','__assert_fail'): dead=True; break
                for t,a in i.a:
                    k,x=st(a)
                    if x=='own' and i.x in mf: del B[k]        # ownership may pass to the callee
                    if x=='freed': note('use after free','a released block is passed to %s'%i.x,i)
                continue
            if i.op=='store':
                k,x=st(i.a[0])
                if x=='own': del B[k]
                if st(i.a[1])[1]=='freed': note('use after free','a released block is written',i)
            elif i.op=='load':
                if st(i.a[0])[1]=='freed': note('use after free','a released block is read',i)
            elif i.op=='ret':
                for a in i.a or ():
                    k,x=st(a)
                    if x=='own': del B[k]
                for k,x in B.items():
                    if x=='own': note('leak','the routine returns while still holding the block requested at %s'%loc(ins_of[k]),i)
        if dead: continue
        t=fn.blocks[b][-1]
        def edge(dst,N,B,facts):
            nn=dict(N); par={}
            for i in fn.blocks[dst]:
                if i.op!='phi': break
                for val,src in i.a:
                    if src==b: par[i.dst]=val
            for d in par: nn.pop(d,None)
            for d,val in par.items():
                if isnull(val):
                    if ins_of[d].ty[0]=='p': nn[d]='null'
                else:
                    r=base(val)
                    if r in N: nn[d]=N[r]
            used=set(nn.values())
            nb={k:x for k,x in B.items() if x=='own' or k in used}
            defs={i.dst for i in fn.blocks[dst] if i.dst}
            nf={k:x for k,x in facts.items() if not any(type(q) is str and q in defs for q in k)}
            push(dst,State(nn,nb,nf))
        if t.op=='br':
            if t.x is None: edge(t.a[0],N,B,facts)
            else:
                c=t.x if type(t.x) is str else None; k=ck(c) if c else None
                for side,dst in ((True,t.a[0]),(False,t.a[1])):
                    nN=dict(N); nB=dict(B); nf=dict(facts)
                    if k and k in nf and nf[k]!=side: continue
                    if corr and k and uses.get(k,0)>1: nf[k]=side
                    i=ins_of.get(c) if c else None
                    if i is not None and i.op=='icmp' and len(i.a)==2 and isnull(i.a[1]) and i.ty[0]=='p':
                        pred=str(i.x); eq=('eq' in pred)==side if ('eq' in pred or 'ne' in pred) else None
                        q=N.get(base(i.a[0]))
                        if eq is True and q not in(None,'null'):
                            for z in [z for z,w in nN.items() if w==q]: nN[z]='null'
                            nB.pop(q,None)
                        elif eq is False and q=='null': continue
                    edge(dst,nN,nB,nf)
        elif t.op=='switch':
            for dst in dict.fromkeys([t.a[0]]+[l for _,l in t.a[1]]): edge(dst,N,B,facts)
    return list(out.values()),sites,n
