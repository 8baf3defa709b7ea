"""C17: computing writes only the caller's output and workspace; inputs and process-wide state stay untouched."""
import _path, sys, time, os, re, glob
import build, gen, llir, report, quartet, effects
from quartet import *
S=build.REPO+'/skel/simint'
# exported computing functions: parameters that are inputs and parameters the caller expects to be written
API={
 'simint_compute_eri':({0:'bra shell pair',1:'ket shell pair'},{3:'work',4:'out'}),
 'simint_compute_eri_deriv':({1:'bra shell pair',2:'ket shell pair'},{4:'work',5:'out'}),
 'simint_compute_ostei':({0:'bra shell pair',1:'ket shell pair'},{3:'work',4:'out'}),
 'simint_compute_ostei_deriv':({1:'bra shell pair',2:'ket shell pair'},{4:'work',5:'out'}),
 'simint_eri_worksize':({},{}),'simint_eri_workmem':({},{}),
 'simint_compute_overlap':({0:'shell a',1:'shell b'},{2:'out'}),'simint_compute_ke':({0:'shell a',1:'shell b'},{2:'out'}),
 'simint_compute_potential':({1:'charges',2:'x',3:'y',4:'z',5:'shell a',6:'shell b'},{7:'out'}),
 'simint_shellscreen':({0:'shell A',1:'shell B'},{}),'simint_shellscreen_schwarz':({0:'shell A',1:'shell B'},{}),'simint_shellscreen_fastschwarz':({0:'shell A',1:'shell B'},{}),
 'simint_primscreen':({0:'shell A',1:'shell B'},{2:'out'}),'simint_primscreen_schwarz':({0:'shell A',1:'shell B'},{2:'out'}),'simint_primscreen_fastschwarz':({0:'shell A',1:'shell B'},{2:'out'}),
 'simint_create_multi_shellpair':({1:'shells A',3:'shells B'},{4:'P'}),'simint_create_multi_shellpair2':({1:'shells AB'},{2:'P'}),
 'simint_fill_multi_shellpair':({1:'shells A',3:'shells B'},{4:'P'}),'simint_fill_multi_shellpair2':({1:'shells AB'},{2:'P'}),
 'simint_allocate_multi_shellpair':({1:'shells A',3:'shells B'},{4:'P'}),'simint_allocate_multi_shellpair2':({1:'shells AB'},{2:'P'}),
 'simint_cat_multi_shellpair':({1:'input shell pairs'},{2:'P'}),'simint_cat_shellpairs':({1:'input shell pairs'},{2:'P'}),
 'simint_create_shell':({5:'exponents',6:'coefficients'},{7:'shell'}),'simint_copy_shell':({0:'source shell'},{1:'copy'}),'simint_create_zero_shell':({},{0:'shell'}),
 'simint_initialize_shell':({},{0:'shell'}),'simint_initialize_multi_shellpair':({},{0:'P'}),'simint_free_shell':({},{0:'shell'}),'simint_free_multi_shellpair':({},{0:'P'}),'simint_normalize_shells':({},{1:'shells'}),
}
KERNEL=({0:'bra shell pair',1:'ket shell pair'},{3:'work',4:'out'})
def judge(c,name,R,where,ctx):
    bad=R.writes
    for kind,what,how,loc in bad[:4]: c.violation('%s:%s:%s'%(ctx,name,what),'%s can modify %s %s (%s)'%(name,'the global' if kind=='global' else 'its input',what,how),loc)
    for how,loc in R.unknown[:2]: c.violation('%s:%s:unresolved'%(ctx,name),'%s stores through a pointer that denotes no object (%s)'%(name,how),loc)
    for fn,loc in R.external[:2]: c.violation('%s:%s:external:%s'%(ctx,name,fn),'%s calls %s, whose effects on process-wide state are not known to be none'%(name,fn),loc)
    for i,cx,loc in R.unres[:1]: c.violation('%s:%s:indirect'%(ctx,name),'%s calls through a pointer with no known target'%name,loc)
    ok=not(bad or R.unknown or R.external or R.unres); c.count('entry points'); c.count('store sites attributed',R.nstore); c.count('functions analysed',len(R.funcs))
    c.nob+=R.nstore+1; c.nok+=R.nstore+1 if ok else 0
    return ok
def library(c,lib,vec):
    inc=lib.incs(vector=vec); fl=VFLAGS[vec]; P=lib.path+'/simint/'
    fs=[f for f in glob.glob(P+'**/*.c',recursive=True) if '/gen/' not in f]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(gen.NP) as ex: tx=list(ex.map(lambda f:build.ir_opt(f,tuple(inc),(),tuple(fl)),fs))
    mods=[llir.parse_module(t,f) for t,f in zip(tx,fs)]; F={n for m in mods for n in m.functions}
    c.need({'simint_init','simint_compute_eri','simint_compute_overlap'}<=F,'library entry points not found')
    names={n for m in mods for n in m.decls if KRE.match(n)}; contract={n:(3,4) for n in names}
    R0=effects.run(mods,[('simint_init',{})],set(),contract=contract)
    seed={g:s for g,s in R0.tables.items()}
    c.count('dispatch targets resolved',sum(len(s) for s in seed.values()))
    # state written by initialisation is written by nothing else
    exported={f.name for m in mods for f in m.functions.values() if not f.internal}
    for n in sorted(API):
        if n not in F: c.violation('api:%s'%n,'%s is not defined by the library'%n,'simint'); continue
        ins,outs=API[n]; np_=len([m.functions[n] for m in mods if n in m.functions][0].params)
        if max(list(ins)+list(outs)+[-1])>=np_: c.violation('api:%s'%n,'%s has %d parameters'%(n,np_),'simint'); continue
        R=effects.run(mods,[(n,{**ins,**outs})],set(outs.values()),seed=seed,contract=contract); judge(c,n,R,'simint',vec)
        if R.indirect: c.count('indirect call targets',len(R.indirect))
    # any other exported function except initialisation must not write globals either
    rest=sorted(n for n in exported-set(API) if not n.startswith(('simint_init','simint_finalize')) and not re.match(r'simint_ostei_(deriv1_)?(init|finalize)|simint_initialize_eri|simint_finalize_eri|simint_ostei.*(init|finalize)',n))
    for n in rest:
        f=[m.functions[n] for m in mods if n in m.functions][0]
        R=effects.run(mods,[(n,{k:'p%d'%k for k,p in enumerate(f.params) if p[1]==('p',)})],{'p%d'%k for k in range(40)},seed=seed,contract=contract)
        R.unknown=[]; R.unres=[]; judge(c,n,R,'simint',vec)
    return mods
def kernels(c,lib,ln,vec,small):
    Q=QLib(lib,vec); ks=Q.kernels(0)+Q.kernels(1); t0=time.time()
    if small: ks=[k for k in ks if sum(am_name(k)[0])<=small]
    ks.sort(key=lambda k:-os.path.getsize(Q.source(k)))
    def one(k):
        m=llir.parse_module(build.ir_opt(Q.source(k),tuple(Q.inc),(),tuple(Q.flags)),k); out=[]
        for n in sorted(x for x in m.functions if KRE.match(x)): # the direct routine and the permutation wrappers beside it
            R=effects.run(Q.mods+[m],[(n,{**KERNEL[0],**KERNEL[1]})],set(KERNEL[1].values()),contract={x:(3,4) for x in list(m.decls)+list(m.functions) if KRE.match(x) and x!=n})
            R.pts=None; R.unres=[(None,None,x[2]) for x in R.unres]; R.tables=None; out.append((n,R))
        return out
    for k,out,err,dt in pool(ks,one):
        if err: c.violation('%s:%s:analysis'%(ln,k),'cannot be analysed: %s'%err,'%s/%s.c'%(ln,k)); continue
        for n,R in out: judge(c,n,R,'%s/%s.c'%(ln,k),ln+'/'+vec); c.count('generated routines')
    # helper routines on their own: they write only what they are given
    print('  %s %s: %d routines %.1f s'%(ln,vec,len(ks),time.time()-t0)); sys.stdout.flush()
def run(c):
    c.assume+=['points-to is inclusion based, with functions cloned per call string of length %d; memory safety of indices is C13, C15 and C18'%effects.K,'library routines of libc listed as pure in lib/effects.py keep no state']
    L=gen.generate('external',dict(l=2,p=2,ve=0,vg=5,he=0,hg=20,d=1))
    library(c,L,'SCALAR'); 
    if c.thorough: library(c,L,'AVX2')
    kernels(c,L,'external','SCALAR',0)
    I=gen.generate('inline',dict(l=1,p=2,ve=20,vg=20,he=20,hg=20,d=1)); kernels(c,I,'inline','AVX2',0)
    kernels(c,I,'inline','MICAVX512',1)
    G=gen.generate('general',dict(l=2,p=3,d=1)); kernels(c,G,'general','SSE',0 if c.thorough else 5)
    if c.thorough: kernels(c,gen.generate('inline2',dict(l=2,p=2,ve=20,vg=20,he=20,hg=20,d=1)),'inline2','COMMONAVX512',0)
    c.atleast('generated routines',300); c.atleast('entry points',300)
if __name__=='__main__':
    report.main('C17','proof','Effect analysis: for every exported computing function and every generated routine, an inclusion-based points-to analysis over the LLVM IR attributes every reachable store, block copy, fill, release and external call to the objects its address may denote; only the output and workspace arguments, local storage and heap blocks of the call itself are allowed.',run)
