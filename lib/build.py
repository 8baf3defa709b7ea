"""Front end: compile /repo sources to IR modules (nothing is linked or run)."""
import os, subprocess, tempfile, atexit, shutil, hashlib, sys, re
import llir
CLANG='clang-18'; OPT='opt-18'
REPO=os.environ.get('SIMINT_REPO','/repo')
_tmp=None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp=tempfile.mkdtemp(prefix='vfy_'); pid=os.getpid()
        def rm():
            if os.getpid()==pid: shutil.rmtree(_tmp,ignore_errors=True)
        atexit.register(rm)
    return _tmp
class BuildError(Exception): pass
CFLAGS='-std=gnu11 -D_GNU_SOURCE -w -O0 -Xclang -disable-O0-optnone -gline-tables-only -fno-discard-value-names -ffp-contract=off -fno-builtin -emit-llvm'.split()
PASSES='function(sroa,instsimplify,adce,loop-simplify,lcssa)'
def sh(cmd,**k):
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,**k)
    if p.returncode!=0: raise BuildError('%s\n%s'%(' '.join(cmd),p.stderr[:1500]+p.stderr[-1500:]))
    return p.stdout
OFLAGS='-std=gnu11 -D_GNU_SOURCE -w -O1 -mllvm -inline-threshold=3000 -fno-unroll-loops -fno-vectorize -fno-slp-vectorize -gline-tables-only -fno-discard-value-names -ffp-contract=off -fno-builtin -emit-llvm'.split()
def ir_opt(src,incs=(),defs=(),flags=()):
    """textual IR after inlining, promotion of locals and redundant-load elimination (same observable effects, fewer memory cells)"""
    return sh([CLANG]+OFLAGS+list(flags)+['-D'+x for x in defs]+['-I'+i for i in incs]+['-S',src,'-o','-'])
def ir_text(src,incs=(),defs=(),flags=(),passes=PASSES,vscale=None):
    """textual IR of one C file"""
    d=tmp()
    h=hashlib.sha1(repr((src,incs,defs,flags,passes)).encode()).hexdigest()[:16]
    bc=os.path.join(d,h+'.bc'); ll=os.path.join(d,h+'.ll')
    sh([CLANG]+CFLAGS+list(flags)+['-D'+x for x in defs]+['-I'+i for i in incs]+['-c',src,'-o',bc])
    sh([OPT,'-S','-passes='+passes,bc,'-o',ll])
    t=open(ll).read()
    if vscale: t=re.sub(r'<vscale x (\d+) x ',lambda m:'<%d x '%(int(m.group(1))*vscale),t)
    os.unlink(bc); os.unlink(ll)
    return t
def module(src,incs=(),defs=(),flags=(),passes=PASSES,vscale=None):
    return llir.parse_module(ir_text(src,tuple(incs),tuple(defs),tuple(flags),passes,vscale),src)
def config_headers(vector='SCALAR',extra=(),maxam=8,maxder=1,d=None):
    """configured headers as cmake would write them, in a scratch include directory"""
    d=d or os.path.join(tmp(),'cfg_%s_%s'%(vector,'_'.join(extra)))
    os.makedirs(d+'/simint/vectorization',exist_ok=True)
    with open(d+'/simint/vectorization/vector_config.h','w') as f:
        f.write('#pragma once\n#define SIMINT_%s\n'%vector+''.join('#define SIMINT_%s\n'%e for e in extra))
    return d
def stub_ostei_config(d,maxam=8,maxder=1):
    os.makedirs(d+'/simint/ostei',exist_ok=True)
    open(d+'/simint/ostei/ostei_config.h','w').write('#pragma once\n#include "simint/vectorization/vectorization.h"\n#define SIMINT_OSTEI_MAXAM %d\n#define SIMINT_OSTEI_MAXDER %d\n#define SIMINT_OSTEI_DERIV1_MAXAM %d\nstatic inline size_t simint_ostei_worksize(int d,int m){return 0;}\nstatic inline size_t simint_ostei_workmem(int d,int m){return 0;}\n'%(maxam,maxder,maxam))
