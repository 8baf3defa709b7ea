"""Which memory a computation can modify: an inclusion-based points-to analysis over LLVM IR, functions cloned per call string
of length K. Objects are stack slots, heap blocks, globals, functions and the objects handed in by the caller; every store, block
copy and fill reachable from an entry is attributed to the objects its address may denote."""
import collections, re
import llir
from llir import body
K=2
MATH={'sqrt','exp','pow','fabs','fmax','fmin','erf','erfc','log','log10','log2','abs','labs','floor','ceil','fma','cbrt','sin','cos','tan','atan','tgamma','lgamma_r','ldexp','frexp','copysign','hypot','round','trunc','fmod','expm1','log1p','exp2','isnan','isinf','sqrtf','expf','powf','rint','nearbyint','lround','memcmp','strlen','strcmp'}
VECMATH=re.compile(r'(_ZGV\w+?_|__svml_|Sleef_)(exp|pow|log|sqrt|erf|sin|cos)')
ALLOC={'malloc','calloc','aligned_alloc','_mm_malloc','memalign'}
FREE={'free','_mm_free'}
NOFX={'abort','exit','__assert_fail','printf','fprintf','puts','putchar','fputs','fwrite','fputc','__fprintf_chk','__printf_chk','perror'}
COPY={'memcpy','memmove','__memcpy_chk','__memmove_chk'}
FILL={'memset','__memset_chk','bzero'}
class Result:
    def __init__(self): self.writes=[]; self.unknown=[]; self.funcs=set(); self.nstore=0; self.nobj=0; self.external=[]; self.indirect=set(); self.unres=[]
def run(mods,entries,writable,seed=None,contract=None):
    """entries: [(function name, {parameter index: label})]; objects whose label is in writable may be modified.
    seed: {global name: functions its storage may hold}
    contract: {function name: indices of the parameters it writes through} for routines analysed on their own"""
    contract=contract or {}
    F={}; G={}
    for m in mods:
        for n,g in m.globals.items():
            if g.init is not None or n not in G: G[n]=g
        for n,f in m.functions.items(): F[n]=f
    D=set()
    for m in mods: D|=set(m.decls)
    isfn=lambda n: n in F or n in D or n in contract
    R=Result(); pts=collections.defaultdict(set); cont=collections.defaultdict(set)
    succ=collections.defaultdict(set); loads=collections.defaultdict(set); stores=collections.defaultdict(set); copies=collections.defaultdict(set); copysrc=collections.defaultdict(set); icalls=collections.defaultdict(list)
    wsites=collections.defaultdict(list) # pointer node -> store sites
    work=collections.deque(); inq=set()
    def addp(n,objs):
        new=objs-pts[n]
        if new:
            pts[n]|=new
            if n not in inq: inq.add(n); work.append(n)
    def addc(o,objs):
        n=('c',o)
        addp(n,objs)
    def edge(a,b):
        if b not in succ[a]:
            succ[a].add(b)
            if pts[a]: addp(b,pts[a])
    def val(v,ctx):
        """node or set of objects of an operand"""
        if type(v) is str: return (ctx,v)
        if type(v) is tuple:
            if v[0]=='cg':
                if isfn(v[1]): return frozenset([('fn',v[1])])
                return frozenset([('glob',v[1])])
            if v[0]=='cgep': return val(v[2],ctx)
            if v[0]=='ccast': return val(v[2],ctx)
            if v[0] in('cv','cagg'):
                s=set()
                for t,x in v[1]:
                    y=val(x,ctx)
                    if isinstance(y,frozenset): s|=y
                return frozenset(s)
        return frozenset()
    def flow(v,ctx,dst):
        x=val(v,ctx)
        if isinstance(x,frozenset):
            if x: addp(dst,set(x))
        else: edge(x,dst)
    def target(v,ctx):
        """node for the address operand"""
        x=val(v,ctx)
        if isinstance(x,frozenset):
            n=('const',x)
            addp(n,set(x)); return n
        return x
    done=set()
    def ginit(name):
        g=G.get(name)
        if g is None: return
        try: init=llir.global_init(g)
        except Exception: return
        s=set(); st=[init]
        while st:
            v=st.pop()
            if type(v) is tuple and v:
                if v[0]=='cg': s.add(('fn',v[1]) if isfn(v[1]) else ('glob',v[1]))
                elif v[0] in('cagg','cv'): st+=[x for t,x in v[1]]
                elif v[0]=='cgep': st.append(v[2])
                elif v[0]=='ccast': st.append(v[2])
        if s: addc(('glob',name),s)
    gl=set()
    def loc(ins): 
        l=ins.fn.mod.loc(ins.dbg) if ins.dbg else None
        return '%s:%s (%s)'%(l[0],l[1],ins.fn.name) if l and l[0] else ins.fn.name
    def write(node,ins,ctx,what): wsites[node].append((ins,what)); R.nstore+=1
    def pname(p): return p[0] if type(p) is tuple or type(p) is list else p
    def enter(name,ctx):
        k=(name,ctx)
        if k in done: return
        done.add(k); f=body(F[name]); R.funcs.add(name); c=k
        for b in f.order:
            for n,i in enumerate(f.blocks[b]): instr(i,c)
    def call(i,c,name,direct=True):
        f=F.get(name)
        if f is None: return
        ctx=((c[1]+((c[0],id(i)),))[-K:])
        enter(name,ctx); d=(name,ctx)
        for k,(t,v) in enumerate(i.a):
            if k>=len(f.params): continue
            if f.params[k][2]: # passed by value: a private copy
                o=('byval',d,k); addp((d,f.params[k][0]),{o}); s=target(v,c); loads[s].add(('c',o)); again(s)
            else: flow(v,c,(d,f.params[k][0]))
        if i.dst: edge((d,'ret'),(c,i.dst))
    def external(i,c,name):
        a=[v for t,v in i.a]
        if name.startswith('llvm.'):
            s=name[5:]
            if s.startswith(('memcpy','memmove')): name='memcpy'
            elif s.startswith('memset'): name='memset'
            elif s.startswith('masked.store') or s.startswith('masked.scatter') or s.startswith('masked.compressstore'):
                write(target(a[1],c),i,c,'masked store'); return
            elif s.startswith(('dbg.','lifetime.','assume','prefetch','stack','experimental','expect','va_')): return
            else:
                for t,v in i.a:
                    if t==('p',) and not any(x in s for x in('gather','load','prefetch','masked.load','ldu','ld1','objectsize','invariant')): write(target(v,c),i,c,name)
                return
        if name in COPY:
            d,s=target(a[0],c),target(a[1],c); write(d,i,c,'block copy')
            copies[s].add(d); copysrc[d].add(s); again(s); again(d)
            if i.dst: edge(d,(c,i.dst))
        elif name in FILL:
            d=target(a[0],c); write(d,i,c,'fill')
            if i.dst: edge(d,(c,i.dst))
        elif name in ALLOC or name=='realloc':
            o=('heap',c[0],i.dst,c[1]); addp((c,i.dst),{o})
            if name=='realloc': flow(a[0],c,(c,i.dst))
        elif name=='posix_memalign':
            o=('heap',c[0],i.dst,c[1]); d=target(a[0],c); write(d,i,c,'posix_memalign'); stores[d].add(('k',o)); addp(('k',o),{o}); again(d)
        elif name in FREE: write(target(a[0],c),i,c,'release')
        elif name in MATH or name in NOFX or VECMATH.match(name): return
        elif name in contract:
            for k in contract[name]:
                if k<len(a): write(target(a[k],c),i,c,'routine %s'%name)
        else: R.external.append((name,loc(i)))
    def again(n):
        if n not in inq: inq.add(n); work.append(n)
    def instr(i,c):
        op=i.op
        if op=='store':
            v,p=i.a; t=target(p,c); write(t,i,c,'store')
            x=val(v,c)
            if isinstance(x,frozenset):
                if x: n=('const',x); addp(n,set(x)); stores[t].add(n); again(t)
            elif i.ty[0] not in('f','i') or i.ty==('i',64): stores[t].add(x); again(t)
        elif op=='load':
            if i.ty[0] in('p','n','s','a') or (i.ty[0]=='x' and i.ty[2]==('p',)):
                t=target(i.a[0],c); loads[t].add((c,i.dst)); again(t)
        elif op=='alloca': addp((c,i.dst),{('alloca',c[0],i.dst,c[1])})
        elif op=='getelementptr': flow(i.a[0],c,(c,i.dst))
        elif op=='phi':
            for v,l in i.a: flow(v,c,(c,i.dst))
        elif op=='select':
            for v in i.a[1:]: flow(v,c,(c,i.dst))
        elif op in('call','tail','musttail','notail'):
            x=i.x
            if type(x) is tuple and x[0]=='asm': R.external.append(('inline assembly',loc(i))); return
            if type(x) is tuple and x[0]=='cg': x=x[1]
            if type(x) is str and not x.startswith('%'):
                x=x.lstrip('@')
                if x in contract and x not in F: external(i,c,x)
                elif x in contract: external2(i,c,x)
                elif x in F: call(i,c,x)
                else: external(i,c,x)
            else:
                n=target(x,c); icalls[n].append((i,c)); again(n)
        elif op=='ret':
            if i.a: flow(i.a[0],c,((c),'ret'))
        elif op in('ptrtoint','inttoptr','bitcast','freeze','addrspacecast','insertvalue','extractvalue','insertelement','extractelement','shufflevector'):
            for v in i.a:
                if v is not None: flow(v,c,(c,i.dst))
        elif op in('add','sub','and','or') and i.ty==('i',64):
            for v in i.a: flow(v,c,(c,i.dst))
    def external2(i,c,name):
        for k in contract[name]:
            if k<len(i.a): write(target(i.a[k][1],c),i,c,'routine %s'%name)
    for name,roles in entries:
        f=F[name]; enter(name,()); d=(name,())
        for k,p in enumerate(f.params):
            l=roles.get(k)
            if l is None: continue
            o=('byval',d,k) if p[2] else ('arg',l,0); addp((d,p[0]),{o}); addc(o,{('arg',l,1)}); addc(('arg',l,1),{('arg',l,1)})
    seen_i=set()
    for g,s in (seed or {}).items(): addc(('glob',g),{('fn',x) for x in s})
    while work:
        n=work.popleft(); inq.discard(n); s=pts[n]
        for o in s:
            if o[0]=='glob' and o[1] not in gl: gl.add(o[1]); ginit(o[1])
        for m in list(succ[n]): addp(m,s)
        for m in list(loads[n]):
            for o in s: edge(('c',o),m)
        for v in list(stores[n]):
            for o in s: edge(v,('c',o))
        for d in list(copies[n]):
            for o in s:
                for q in list(pts[d]): edge(('c',o),('c',q))
        for s2 in list(copysrc[n]):
            for o in list(pts[s2]):
                for q in s: edge(('c',o),('c',q))
        for i,c in list(icalls[n]):
            for o in list(s):
                if o[0]!='fn': continue
                k=(id(i),c,o[1])
                if k in seen_i: continue
                seen_i.add(k); R.indirect.add(o[1])
                if o[1] in contract: external2(i,c,o[1])
                elif o[1] in F: call(i,c,o[1])
                else: external(i,c,o[1])
    # indirect calls without resolved targets
    for n,l in icalls.items():
        if not any(o[0]=='fn' for o in pts[n]):
            for i,c in l: R.unres.append((i,c,loc(i)))
    bad=set()
    for n,l in wsites.items():
        tg=pts[n]
        for ins,what in l:
            if not tg: R.unknown.append((what,loc(ins)))
            for o in tg:
                if o[0]=='glob': k=('global',o[1])
                elif o[0]=='arg' and o[1] not in writable: k=('argument',o[1]+('' if o[2]==0 else ' (data it points to)'))
                elif o[0]=='fn': k=('function',o[1])
                else: continue
                if (k,loc(ins)) not in bad: bad.add((k,loc(ins))); R.writes.append((k[0],k[1],what,loc(ins)))
    R.tables={n[1][1]:{o[1] for o in s if o[0]=='fn'} for n,s in pts.items() if n[0]=='c' and n[1][0]=='glob' and any(o[0]=='fn' for o in s)}
    R.nobj=len({o for s in pts.values() for o in s}); R.pts=pts
    return R
