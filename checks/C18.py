"""C18: ownership of the library's storage: typestate of every API history up to a length, and of every routine's temporaries."""
import _path, itertools, time, os, glob, re
import build, report, shapes, dom, msp, gen, typestate
from dom import *
from msp import Sh
from absint import Interp, Mem, State, AnalysisError, BUILTIN
from C03 import Env
S=build.REPO+'/skel'
class Heap:
    """typestate of heap blocks along one (straight) abstract history"""
    def __init__(self,c,E,key): self.c=c; self.E=E; self.key=key; self.mem=Mem(); self.live={}; self.dead={}; self.bad=[]; self.I=None
    def note(self,k,m,loc): self.bad.append((k,m,loc))
    def attach(self,I):
        def alloc(nm):
            b=BUILTIN[nm]
            def h(I,ins,a,st):
                if st.pc is not True: raise AnalysisError('allocation under an undecided condition at %s'%I.loc(ins))
                n0=len(I.events); r=b(I,ins,a,st)
                for e in I.events[n0:]:
                    if e.kind=='malloc':
                        if type(e.val) is not int: self.note('size','block size is not determined: %s'%str(e.val)[:80],I.loc(ins))
                        self.live[e.reg]=I.loc(ins)
                return r
            return h
        for nm in ('malloc','calloc','posix_memalign'): I.hooks[nm]=alloc(nm)
        def free(I,ins,a,st):
            p=a[0]
            if st.pc is not True: raise AnalysisError('release under an undecided condition at %s'%I.loc(ins))
            if p==0: return None
            if type(p) is not Ptr or p.r.kind!='heap' or p.o!=0: self.note('free','releases %s, which is not the start of a heap block'%str(p)[:60],I.loc(ins)); return None
            if p.r in self.dead: self.note('double free','the block from %s is released again'%self.dead[p.r],I.loc(ins))
            elif p.r in self.live: self.dead[p.r]=self.live.pop(p.r)
            return None
        I.hooks['free']=free
        def acc(what):
            def h(I,mem,p,size,*r):
                ins=r[-1]
                if p.r.kind=='heap':
                    if p.r in self.dead: self.note('use after free','%s of the block from %s after its release'%(what,self.dead[p.r]),I.loc(ins))
                    if type(p.r.size) is int and (type(p.o) is not int or p.o<0 or p.o+size>p.r.size): self.note('bounds','%s of byte %s (%d bytes) of a %s byte block from %s'%(what,str(p.o)[:40],size,p.r.size,I.loc(p.r.info)),I.loc(ins))
                elif p.r.kind=='alloca' and type(p.r.size) is int and type(p.o) is int and (p.o<0 or p.o+size>p.r.size): self.note('bounds','%s outside local storage %s'%(what,p.r.name),I.loc(ins))
            return h
        I.store_hook=acc('write'); I.load_hook=acc('read')
        m0=BUILTIN['memcpy']
        def mcp(I,ins,a,st):
            d,s,n=a[:3]
            if type(n) is int and n>0:
                for p,w in ((d,'write'),(s,'read')):
                    if type(p) is Ptr: acc(w)(I,st.mem,p,n,ins)
            return m0(I,ins,a,st)
        for nm in ('memcpy','memmove','llvm.memcpy.p0.p0.i64','llvm.memmove.p0.p0.i64'): I.hooks[nm]=mcp
    def fn(self,n):
        for m in self.E.m:
            if n in m.functions: return m.functions[n]
        self.c.need(False,'%s not found'%n)
    def call(self,n,*args,hooks=None):
        I=self.I=Interp(*self.E.m); I.track_alloca=True; self.attach(I)
        for h in ('simint_primscreen','simint_primscreen_schwarz','simint_primscreen_fastschwarz'):
            if not(hooks and '*noscreen' in hooks): I.hooks[h]=self.primscreen
        for k,v in (hooks or {}).items(): I.hooks[k]=v
        s=State(True,self.mem); r=I.call(self.fn(n),list(args),s); self.mem=s.mem; self.c.count('instructions',I.ninstr)
        for e in I.events:
            if e.kind=='badstore': self.note('store','write through a pointer that is not resolved',I.loc(e.ins))
        return r
    def primscreen(self,I,ins,args,st):
        A,B,out=args[:3]; E=self.E; g=lambda p,f,s:msp.rd(st.mem,I,p,E.sh[f][0],s,'i')
        na,nb=g(A,'nprim',4),g(B,'nprim',4); n=na*(na+1)//2 if g(A,'ptr',8)==g(B,'ptr',8) and na==nb else na*nb
        if out!=0:
            for i in range(n): I.store(st.mem,I.ptradd(out,8*i),(7*i)%5+1,('f',64),ins.fn.mod,st,ins)
        return 5
    def finish(self,loc):
        for r,l in self.live.items(): self.note('leak','the block from %s is never released'%l,loc)
        c=self.c; c.nob+=1
        if not self.bad: c.nok+=1
        seen=set()
        for k,m,l in self.bad:
            if k in seen: continue
            seen.add(k); c.violation(self.key+':'+k,m,l)
        return not self.bad
def arrs(H,name,n):
    s=Sh(name,n,1); al=Region(name+'.al','in'); co=Region(name+'.co','in'); shapes.arr(H.mem,al,s.al); shapes.arr(H.mem,co,s.co); return s,Ptr(al,0),Ptr(co,0)
def shell_history(c,E,ops):
    H=Heap(c,E,'shell:%s:%s'%(E.name,','.join(ops))); d=Region('G','in'); P=Ptr(d,0); held=0; k=0
    try:
        H.call('simint_initialize_shell' if len(ops)%2 else 'simint_initialize_shells',*([P] if len(ops)%2 else [1,P]))
        for op in ops:
            k+=1
            if op[0]=='c':
                s,a,co=arrs(H,'s%d'%k,int(op[1:])); H.call('simint_create_shell',s.nprim,1,*s.xyz,a,co,P); held=s.nprim
            elif op[0]=='a':
                n=int(op[1:]); H.call('simint_allocate_shell',n,P); held=0
                for f in ('alpha','coef'):
                    p=msp.getf(H.mem,d,E.sh,f)
                    if type(p) is not Ptr or p.r not in H.live or type(p.r.size) is int and p.o+8*n>p.r.size: H.note('size','%s does not have room for %d values after simint_allocate_shell'%(f,n),'simint_allocate_shell')
                a_,c_=msp.getf(H.mem,d,E.sh,'alpha'),msp.getf(H.mem,d,E.sh,'coef')
                if type(a_) is Ptr and type(c_) is Ptr and a_.r is c_.r and abs(a_.o-c_.o)<8*n: H.note('overlap','exponent and coefficient arrays overlap after simint_allocate_shell','simint_allocate_shell')
            elif op[0]=='y':
                src=Sh('y%d'%k,int(op[1:]),1); r=Region('ysrc%d'%k,'in'); src.put(H.mem,E.sh,r); H.call('simint_copy_shell',Ptr(r,0),P); held=src.nprim
            elif op=='z': H.call('simint_create_zero_shell',P); held=1
            elif op=='f': H.call('simint_free_shell',P); held=0
            elif op=='g': H.call('simint_free_shells',1,P); held=0
        if held: # the contents are read, as any user would
            for f in ('alpha','coef'):
                p=msp.getf(H.mem,d,E.sh,f)
                if not(type(p) is Ptr and p.r in H.live and type(p.r.size) is int and p.o+8*held<=p.r.size): H.note('storage','%s of a shell with %d primitives does not lie in live storage'%(f,held),ops[-1])
        H.call('simint_free_shell',P)
        n0=len(H.bad); H.call('simint_free_shell',P)
    except AnalysisError as e: H.note('undecided',str(e),'')
    H.finish('simint_free_shell'); c.count('histories')
def msp_history(c,E,ops):
    H=Heap(c,E,'multi_shellpair:%s:%s'%(E.name,','.join(ops))); d=Region('P','in'); P=Ptr(d,0); k=0; aux=[]
    SH={'small':[(1,1)],'mid':[(2,),(1,2)],'big':[(2,3)]*(2*E.L+1),'self':[(3,)]}
    def pairs(spec,nm):
        r=Region(nm,'in'); 
        for i,s in enumerate(spec):
            A=Sh('%sa%d'%(nm,i),s[0],1); B=A if len(s)==1 else Sh('%sb%d'%(nm,i),s[1],1)
            A.put(H.mem,E.sh,r,2*i*E.sh['sizeof']); B.put(H.mem,E.sh,r,(2*i+1)*E.sh['sizeof'])
        return Ptr(r,0),len(spec)
    def other(spec,m):
        r=Region('Q%d'%len(aux),'in'); aux.append(r); p,n=pairs(spec,'q%d_'%len(aux)); H.call('simint_initialize_multi_shellpair',Ptr(r,0)); H.call('simint_create_multi_shellpair2',n,p,Ptr(r,0),m); return Ptr(r,0)
    def room():
        tot=msp.getf(H.mem,d,E.msp,'nprim'); n=msp.getf(H.mem,d,E.msp,'nshell12'); fs=E.prim+([] if msp.getf(H.mem,d,E.msp,'screen') in (0,None) else ['screen'])
        for f,sz,cnt in [(f,8,tot) for f in fs]+[(f,8,n) for f in msp.PAIR]+[('nprim12',4,n)]:
            p=msp.getf(H.mem,d,E.msp,f)
            if not(type(p) is Ptr and p.r in H.live and type(p.r.size) is int and type(cnt) is int and p.o+sz*cnt<=p.r.size): H.note('storage','array %s does not lie in live storage'%f,ops[-1])
    try:
        H.call('simint_initialize_multi_shellpair' if len(ops)%2 else 'simint_initialize_multi_shellpairs',*([P] if len(ops)%2 else [1,P]))
        for op in ops:
            k+=1; m=1 if op.endswith('!') else 0; o=op.rstrip('!'); has=True
            if o in SH:
                p,n=pairs(SH[o],'h%d'%k); H.call('simint_create_multi_shellpair2',n,p,P,m)
            elif o=='lists':
                ra=Region('la%d'%k,'in'); rb=Region('lb%d'%k,'in')
                for i in range(2): Sh('la%d_%d'%(k,i),i+1,1).put(H.mem,E.sh,ra,i*E.sh['sizeof']); Sh('lb%d_%d'%(k,i),2,1).put(H.mem,E.sh,rb,i*E.sh['sizeof'])
                H.call('simint_create_multi_shellpair',2,Ptr(ra,0),2,Ptr(rb,0),P,m)
            elif o=='two-step':
                p,n=pairs(SH['mid'],'t%d'%k); H.call('simint_allocate_multi_shellpair2',n,p,P,m); H.call('simint_fill_multi_shellpair2',n,p,P,m); H.call('simint_fill_multi_shellpair2',n,p,P,m)
            elif o in('cat','catbig','cat1'):
                src=[other(SH['mid'],m),other(SH['self'],m)] if o=='cat' else [other(SH['big'],m),other(SH['mid'],m)] if o=='catbig' else [other(SH['small'],m),other(SH['self'],m),other([(2,2)],m)]
                l=Region('lst%d'%k,'in'); shapes.arr(H.mem,l,src); H.call('simint_cat_shellpairs' if o=='cat1' else 'simint_cat_multi_shellpair',len(src),Ptr(l,0),P,m)
            elif o=='free': H.call('simint_free_multi_shellpair',P); has=False
            elif o=='frees': H.call('simint_free_multi_shellpairs',1,P); has=False
            if has: room()
        for r in aux: H.call('simint_free_multi_shellpair',Ptr(r,0))
        H.call('simint_free_multi_shellpairs' if len(ops)%2 else 'simint_free_multi_shellpair',*([1,P] if len(ops)%2 else [P])); H.call('simint_free_multi_shellpair',P)
    except AnalysisError as e: H.note('undecided',str(e),'')
    H.finish('simint_free_multi_shellpair'); c.count('histories')
def arrays_of_objects(c,E):
    """the plural initialise/free routines reach every element"""
    for n in (0,1,3):
        H=Heap(c,E,'arrays:%s:%d'%(E.name,n)); d=Region('G','in'); q=Region('P','in')
        try:
            H.call('simint_initialize_shells',n,Ptr(d,0)); H.call('simint_initialize_multi_shellpairs',n,Ptr(q,0))
            for i in range(n):
                s,a,co=arrs(H,'s%d'%i,i+1); H.call('simint_create_shell',s.nprim,1,*s.xyz,a,co,Ptr(d,i*E.sh['sizeof']))
            for i in range(n): H.call('simint_create_multi_shellpair',1,Ptr(d,i*E.sh['sizeof']),1,Ptr(d,0),Ptr(q,i*E.msp['sizeof']),0)
            H.call('simint_free_shells',n,Ptr(d,0)); H.call('simint_free_multi_shellpairs',n,Ptr(q,0))
        except AnalysisError as e: H.note('undecided',str(e),'')
        H.finish('simint_free_shells'); c.count('histories')
def screens(c,E):
    """temporaries of the screening routines; the integral routine is represented by what it may touch"""
    wm={}
    for meth,fnn in ((1,'simint_shellscreen'),(2,'simint_shellscreen'),(1,'simint_primscreen'),(2,'simint_primscreen'),(1,'simint_shellscreen_schwarz'),(1,'simint_primscreen_schwarz')):
        for spec,am,out in (((1,1),(0,0),1),((2,1),(1,2),1),((3,),(1,1),1),((2,2),(2,0),0),((2,),(3,3),0)):
            H=Heap(c,E,'%s:%s:%d:%s:%s'%(fnn,E.name,meth,'x'.join(map(str,spec)),am)); r=Region('AB','in'); A=Sh('A',spec[0],am[0]); B=A if len(spec)==1 else Sh('B',spec[1],am[1])
            A.put(H.mem,E.sh,r,0); B.put(H.mem,E.sh,r,E.sh['sizeof']); n=am[0]; nc=lambda l:(l+1)*(l+2)//2
            o=Region('out','out',8*(spec[0]*(spec[0]+1)//2 if len(spec)==1 else spec[0]*spec[1]))
            def eri(I,ins,a,st):
                Pp,Qp,tol,work,integ=a
                N=(nc(A.am)*nc(B.am))**2
                for p in (work,integ):
                    if type(p) is not Ptr or p.r not in H.live: H.note('use after free','the integral routine is given released or missing storage',I.loc(ins)); return 0
                need=I.call_worksize if hasattr(I,'call_worksize') else None
                if type(work.r.size) is int and work.o+8*WORK>work.r.size: H.note('bounds','the workspace has %s bytes, %d are needed'%(work.r.size,8*WORK),I.loc(ins))
                for i in range(N): I.store(st.mem,I.ptradd(integ,8*i),i%7,('f',64),ins.fn.mod,st,ins)
                return 1
            hk={'simint_compute_eri':eri,'simint_compute_ostei':eri,'*noscreen':None}
            hk.pop('*noscreen'); hk['simint_ostei_workmem']=lambda I,ins,a,st:8*WORK; hk['simint_eri_workmem']=hk['simint_ostei_workmem']; hk['simint_ostei_worksize']=hk['simint_eri_worksize']=lambda I,ins,a,st:WORK
            hk2=dict(hk); hk2['*noscreen']=None
            try:
                args=[Ptr(r,0),Ptr(r,E.sh['sizeof'])]
                if 'prim' in fnn: args.append(Ptr(o,0) if out else 0)
                if not fnn.endswith('schwarz'): args.append(meth)
                H.call(fnn,*args,hooks=hk2)
            except AnalysisError as e: H.note('undecided',str(e),'')
            H.finish(fnn); c.count('temporaries')
WORK=5000
def locals_(c,E):
    """every routine that holds heap storage in local variables, on every path"""
    files=sorted(f for f in glob.glob(S+'/simint/**/*.c',recursive=True))
    inc=build.config_headers('SCALAR',extra=('LOC',)); build.stub_ostei_config(inc)
    L=gen.generate('c18',dict(l=1,p=1,d=1,vg=9,hg=9,ve=9,he=9))
    todo=[(f,[inc,S],()) for f in files]+[(L.gen+'/'+f,L.incs(vector='SCALAR'),()) for f in L.files()]
    pat=re.compile(r'\b(\w*alloc\w*|\w*ALLOC\w*|posix_memalign|strdup)\s*\(')
    nf=0; sites=0
    for f,incs,fl in todo:
        t=open(f,errors='replace').read(); nf+=1
        if f.endswith('recur_lookup.c') or f.endswith('boys_shortgrid.c') or not pat.search(t): continue
        for vec,flags in (('SCALAR',()),('AVX2',('-mavx2','-mfma'))):
            if vec=='AVX2':
                if f.startswith(L.path): ii=L.incs(vector='AVX2')
                else: ii=[build.config_headers('AVX2',extra=('LOC',)),S]; build.stub_ostei_config(ii[0])
            else: ii=incs
            try: m=build.module(f,ii,flags=flags)
            except build.BuildError as e: c.violation('compile:'+os.path.basename(f),str(e)[:300],f); continue
            al,fr=typestate.wrappers([m])
            for n,fn in m.functions.items():
                if n in al or n in fr: continue
                r,s,ns=typestate.analyse(fn,al,fr,lambda i,m=m,fn=fn:('%s:%d'%m.loc(i.dbg)) if m.loc(i.dbg) else fn.name)
                if not s: continue
                sites+=s; c.count('routines with local storage'); c.count('ownership states',ns)
                c.nob+=1; c.nok+=not r
                for k,msg,l in r[:3]: c.violation('%s:%s'%(n,k),'%s: %s'%(n,msg),l)
    c.count('files searched for allocations',nf); c.count('allocation sites',sites)
def run(c):
    c.units+=['simint/shell/shell.c','simint/shell/shell_screen.c']
    E1=Env(c,'SCALAR',1,()); E4=Env(c,'AVX2',4,('-mavx2','-mfma'))
    n=4 if c.thorough else 3
    ops=['c1','c3','a2','y2','z','f']
    for E in (E1,):
        for k in range(1,n+1):
            for h in itertools.product(ops,repeat=k):
                if k==1 or h[0]!='f': shell_history(c,E,h)
        shell_history(c,E,('c1','g','c3','g','c2'))
    E8=Env(c,'COMMONAVX512',8,('-mavx512f','-mavx512dq'))
    N=16 if c.thorough else 9
    for E in (E1,E4,E8): # sizes on either side of every rounding a vector length could suggest
        for a in range(1,N+1):
            for b in range(1,N+1):
                for x,y in (('c','c'),('a','y'),('y','a')): shell_history(c,E,('%s%d'%(x,a),'%s%d'%(y,b)))
        if c.verbose: print('shells %.1f'%(time.time()-c.t0))
    ops=['small','mid!','big','two-step','cat','free']
    for E in (E1,E4):
        for k in range(1,(3 if E is E1 or c.thorough else 2)+1):
            for h in itertools.product(ops,repeat=k):
                if k==3 and h[0]=='free': continue
                msp_history(c,E,h)
        for h in (('lists','lists!'),('cat!','free','cat!'),('cat1','cat1!','catbig'),('catbig!','frees','small!'),('self','two-step!','self!'),('two-step!','cat1!')): msp_history(c,E,h)
        arrays_of_objects(c,E)
        if c.verbose: print(E.name,'%.1f'%(time.time()-c.t0))
    for E in (E1,E4):
        inc=build.config_headers('SCALAR' if E is E1 else 'AVX2',extra=('STUB1',))
        E.m.append(build.module(S+'/simint/shell/shell_screen.c',[inc,S],flags=() if E is E1 else ('-mavx2','-mfma'))); screens(c,E)
        E.m.pop()
    if c.verbose: print('screens %.1f'%(time.time()-c.t0))
    locals_(c,E1)
    c.assume+=['memory allocation succeeds','the integral routine uses no more than the advertised workspace and output block (properties C13, C09)','histories longer than the enumerated ones reduce to these: after each call the object holds at most one block, its size and a pointer to it']
    c.sample('histories of initialise/create/allocate/copy/concatenate/free of length <= %d, with heap typestate, bounds of every access, and release of everything at the end'%n)
    c.atleast('histories',300); c.atleast('temporaries',20); c.atleast('allocation sites',2)
if __name__=='__main__':
    report.main('C18','proof','Heap typestate: every history of shell and multi-shell-pair calls up to a bounded length is abstractly interpreted with an abstract heap (live, released, sizes); every access must be inside a live block, every block released exactly once, none left at the end. Screening temporaries likewise. A path-sensitive ownership analysis over the SSA graph covers every routine (library and generated) that holds heap storage in local variables.',run)
