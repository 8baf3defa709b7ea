"""Compiled modules of a generated library and a process pool running one analysis job per routine."""
import os, re, sys, traceback, time, multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
import build, gen, kern, shapes, llir
from kern import am_of, LET
from absint import AnalysisError
KRE=re.compile(r'^ostei_(deriv1_)?([a-z])_([a-z])_([a-z])_([a-z])$')
VFLAGS={'SCALAR':(),'SSE':('-msse4.2',),'AVX':('-mavx',),'AVX2':('-mavx2','-mfma'),'COMMONAVX512':('-mavx512f',),'MICAVX512':('-mavx512f','-mavx512pf','-mavx512er','-mavx512cd')}
VLEN={'SCALAR':1,'SSE':2,'AVX':4,'AVX2':4,'COMMONAVX512':8,'MICAVX512':8}
def name_of(am,der=0): return 'ostei_%s%s'%('deriv1_' if der else '','_'.join(LET[a] for a in am))
def am_name(n):
    m=KRE.match(n)
    return (tuple(am_of(x) for x in m.groups()[1:]),1 if m.group(1) else 0)
class QLib:
    """helper modules are compiled once; kernels per job"""
    def __init__(self,lib,vec='SCALAR',helpers=True):
        self.lib=lib; self.vec=vec; self.inc=lib.incs(vector=vec); self.flags=VFLAGS[vec]; self.L=VLEN[vec]
        self.lay=shapes.layout('simint_multi_shellpair',[f for f in shapes.MSP if lib.opts.get('d',0)>0 or f not in('alpha2','beta2')],self.inc); self.der=lib.opts.get('d',0)>0
        S=lib.path+'/simint/'
        fs=[S+'ostei/ostei_general_vrr.c',S+'ostei/ostei_general_hrr.c',S+'recur_lookup.c']
        if helpers: fs+=[lib.gen+'/'+f for f in lib.files() if not f.startswith('ostei_')]
        with ThreadPoolExecutor(gen.NP) as ex: txt=list(ex.map(lambda f:build.ir_text(f,tuple(self.inc),(),tuple(self.flags)),fs))
        self.mods=[llir.parse_module(t,f) for t,f in zip(txt,fs)]
    def kernels(self,der=0): return [f[:-2] for f in self.lib.files('ostei_deriv1_' if der else 'ostei_') if KRE.match(f[:-2]) and bool(KRE.match(f[:-2]).group(1))==bool(der)]
    def source(self,name): return self.lib.gen+'/'+name+'.c'
    def module(self,name): return build.module(self.source(name),self.inc,flags=self.flags)
    def case(self,*a,**k): return kern.Case(self.lay,self.L,*a,der=self.der,**k)
def other_kernel(mod,name):
    """the integral routine a wrapper delegates to, or None for a directly computing routine"""
    for g in kernels_called(mod,name): return g
    return None
def kernels_called(mod,name):
    seen=set(); out=[]; todo=[name]
    while todo:
        f=todo.pop()
        if f in seen or f not in mod.functions: continue
        seen.add(f)
        fn=llir.body(mod.functions[f])
        for l in fn.order:
            for ins in fn.blocks[l]:
                if ins.op=='call' and isinstance(ins.x,str):
                    c=ins.x.lstrip('@')
                    if KRE.match(c) and c!=name and c not in out: out.append(c)
                    todo.append(c)
    return out
_F=None
def _call(j):
    t=time.time()
    try: return j,_F(j),None,time.time()-t
    except AnalysisError as e: return j,None,'AnalysisError: %s'%str(e)[:500],time.time()-t
    except build.BuildError as e: return j,None,'BuildError: %s'%str(e)[:800],time.time()-t
    except Exception as e: return j,None,'%s: %s\n%s'%(type(e).__name__,str(e)[:300],traceback.format_exc()[-1200:]),time.time()-t
def pool(jobs,fn,procs=None):
    """yields (job, result, error text, seconds)"""
    global _F
    _F=fn
    ctx=mp.get_context('fork')
    with ctx.Pool(procs or gen.NP,maxtasksperchild=4) as P:
        for r in P.imap_unordered(_call,jobs,chunksize=1): yield r
