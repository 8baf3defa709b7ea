"""Meaning of the vector intrinsics (x86, AArch64) the library's back ends compile to."""
import absint
from dom import *
from absint import *
from absint import vmap, AnalysisError
def sve_hooks(I,vs):
    L=2*vs; h=I.hooks
    def lanes(m,n): return tuple(m[k*(len(m)//n)] for k in range(n))
    def reg(nm,f): h['llvm.aarch64.sve.'+nm]=f
    def tb(I,x): return I.tobool(x)
    reg('ptrue.nxv2i1',lambda I,ins,a,st:tuple([True]*L) if a[0]==31 else absint_fail('ptrue pattern'))
    reg('ptrue.nxv16i1',lambda I,ins,a,st:tuple([True]*(8*L)))
    reg('convert.to.svbool.nxv2i1',lambda I,ins,a,st:tuple(a[0][k//8] if k%8==0 else False for k in range(8*L)))
    reg('convert.from.svbool.nxv2i1',lambda I,ins,a,st:lanes(a[0],L))
    h['llvm.vector.insert.nxv2f64.v%df64'%L]=lambda I,ins,a,st:tuple(a[1])
    h['llvm.vector.extract.v%df64.nxv2f64'%L]=lambda I,ins,a,st:tuple(a[0])
    def pred(f,n):
        def g(I,ins,a,st):
            return tuple(I.ite(tb(I,a[0][k]),lift(f,*[x[k] for x in a[1:1+n]]),a[1][k]) for k in range(L))
        return g
    for nm,f,n in (('fadd',add,2),('fsub',sub,2),('fmul',mul,2),('fdiv',absint.f_div,2),('fmad',lambda a,b,c:add(mul(a,b),c),3),('fmsb',lambda a,b,c:sub(c,mul(a,b)),3),
                   ('fnmad',lambda a,b,c:neg(add(mul(a,b),c)),3),('fnmsb',lambda a,b,c:sub(mul(a,b),c),3),
                   ('fmla',lambda a,b,c:add(a,mul(b,c)),3),('fmls',lambda a,b,c:sub(a,mul(b,c)),3),('fnmla',lambda a,b,c:neg(add(a,mul(b,c))),3),('fnmls',lambda a,b,c:sub(mul(b,c),a),3),
                   ('fmax',absint.f_fmax,2),('fmin',absint.f_fmin,2)):
        for s in ('','.u'): reg(nm+s+'.nxv2f64',pred(f,n))
    def mg(f):   # merging unary: inactive, pg, x
        return lambda I,ins,a,st:tuple(I.ite(tb(I,a[1][k]),lift(f,a[2][k]),a[0][k]) for k in range(L))
    reg('fneg.nxv2f64',mg(neg)); reg('fsqrt.nxv2f64',mg(sqrt_))
    reg('dup.nxv2f64',lambda I,ins,a,st:tuple(I.ite(tb(I,a[1][k]),a[2],a[0][k]) for k in range(L)))
    reg('dup.x.nxv2f64',lambda I,ins,a,st:tuple([a[0]]*L))
    def ld1(I,ins,a,st):
        return tuple(I.ite(tb(I,a[0][k]),I.load1(st.mem,I.ptradd(a[1],8*k),8,'d',st,ins),0) if tb(I,a[0][k]) is not False else 0 for k in range(L))
    reg('ld1.nxv2f64',ld1)
    def whilelt(I,ins,a,st):
        if type(a[0]) is not int or type(a[1]) is not int: raise AnalysisError('whilelt of symbolic bounds')
        return tuple(a[0]+k<a[1] for k in range(L))
    reg('whilelt.nxv2i1.i32',whilelt); reg('whilelt.nxv2i1.i64',whilelt)
    def redu(f):
        def g(I,ins,a,st):
            r=None
            for k in range(L):
                if tb(I,a[0][k]) is True: r=a[1][k] if r is None else lift(f,r,a[1][k])
                elif tb(I,a[0][k]) is not False: raise AnalysisError('symbolic predicate')
            return 0 if r is None else r
        return g
    reg('faddv.nxv2f64',redu(add)); reg('fadda.nxv2f64',lambda I,ins,a,st:redu(add)(I,ins,[a[0],a[2]],st)); 
    h['llvm.aarch64.sve.fmaxv.nxv2f64']=redu(absint.f_fmax); h['llvm.aarch64.sve.fminv.nxv2f64']=redu(absint.f_fmin)
    h['llvm.aarch64.sve.fmaxnmv.nxv2f64']=redu(absint.f_fmax); h['llvm.aarch64.sve.fminnmv.nxv2f64']=redu(absint.f_fmin)
def absint_fail(m): raise AnalysisError(m)
def vec_hooks(I):
    h=I.hooks
    def red(f):
        def g(I,ins,a,st):
            v=a[-1]; r=a[0] if len(a)>1 else None
            for x in v: r=x if r is None else lift(f,r,x)
            return r
        return g
    for w in (2,4,8):
        h['llvm.vector.reduce.fadd.v%df64'%w]=red(add); h['llvm.vector.reduce.fmax.v%df64'%w]=red(absint.f_fmax); h['llvm.vector.reduce.fmin.v%df64'%w]=red(absint.f_fmin)
    h['llvm.x86.avx.hadd.pd.256']=lambda I,ins,a,st:(lift(add,a[0][0],a[0][1]),lift(add,a[1][0],a[1][1]),lift(add,a[0][2],a[0][3]),lift(add,a[1][2],a[1][3]))
    h['llvm.x86.sse3.hadd.pd']=lambda I,ins,a,st:(lift(add,a[0][0],a[0][1]),lift(add,a[1][0],a[1][1]))
    pw=lambda f:(lambda I,ins,a,st:vmap(lambda x,y:lift(f,x,y),a[0],a[1]))
    for nm,f in (('max',absint.f_fmax),('min',absint.f_fmin)):
        for p in ('llvm.x86.sse2.%s.pd','llvm.x86.avx.%s.pd.256','llvm.x86.avx512.%s.pd.512'): h[p%nm]=pw(f)
    for nm,f in (('add',add),('sub',sub),('mul',mul),('div',absint.f_div)): h['llvm.x86.avx512.%s.pd.512'%nm]=pw(f)
    h['llvm.x86.avx512.sqrt.pd.512']=lambda I,ins,a,st:vmap(lambda x:lift(sqrt_,x),a[0])
    h['llvm.aarch64.neon.faddv.f64.v2f64']=lambda I,ins,a,st:lift(add,a[0][0],a[0][1])
    for nm,f in (('fmaxv',absint.f_fmax),('fminv',absint.f_fmin),('fmaxnmv',absint.f_fmax),('fminnmv',absint.f_fmin)): h['llvm.aarch64.neon.%s.f64.v2f64'%nm]=lambda I,ins,a,st,f=f:lift(f,a[0][0],a[0][1])
