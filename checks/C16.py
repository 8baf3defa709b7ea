"""C16: every vector back end has the lane-wise meaning of the scalar one."""
import _path, os, re, glob, itertools
import build, report, dom, absint, llir
from vecops import vec_hooks, sve_hooks
from dom import *
from absint import Interp, Mem, State, AnalysisError, vmap
S=build.REPO+'/skel'
VEC=S+'/simint/vectorization'
DRV='''
#include <math.h>
%s
#include "simint/vectorization/vectorization.h"
#define V SIMINT_DBLTYPE
const long K[]={SIMINT_SIMD_LEN,sizeof(V),SIMINT_SIMD_ALIGN,SIMINT_SIMD_ALIGN_DBL,SIMINT_SIMD_ALIGN_INT,SIMINT_NSHELL_SIMD,_Alignof(V)};
const long R[]={%s};
void t_load(V*o,double*p,int i){ o[0]=SIMINT_DBLLOAD(p,i); }
void t_set1(V*o,double a){ o[0]=SIMINT_DBLSET1(a); }
void t_neg(V*o,V*a){ o[0]=SIMINT_NEG(a[0]); }
void t_add(V*o,V*a){ o[0]=SIMINT_ADD(a[0],a[1]); }
void t_sub(V*o,V*a){ o[0]=SIMINT_SUB(a[0],a[1]); }
void t_mul(V*o,V*a){ o[0]=SIMINT_MUL(a[0],a[1]); }
void t_div(V*o,V*a){ o[0]=SIMINT_DIV(a[0],a[1]); }
void t_sqrt(V*o,V*a){ o[0]=SIMINT_SQRT(a[0]); }
void t_fmadd(V*o,V*a){ o[0]=SIMINT_FMADD(a[0],a[1],a[2]); }
void t_fmsub(V*o,V*a){ o[0]=SIMINT_FMSUB(a[0],a[1],a[2]); }
void t_exp(V*o,V*a){ o[0]=SIMINT_EXP(a[0]); }
void t_pow(V*o,V*a){ o[0]=SIMINT_POW(a[0],a[1]); }
void t_contract(int n,int*off,V*s,double*d){ contract(n,off,s,d); }
void t_contract_all(int n,V*s,double*d){ contract_all(n,s,d); }
void t_contract_fac(int n,V*f,int*off,V*s,double*d){ contract_fac(n,f[0],off,s,d); }
void t_contract_all_fac(int n,V*f,V*s,double*d){ contract_all_fac(n,f[0],s,d); }
double t_min(V*a){ return vector_min(a[0]); }
double t_max(V*a){ return vector_max(a[0]); }
void t_mask(V*o,int n,double*p){ o[0]=mask_load(n,p); }
void*t_alloc(size_t n){ return SIMINT_ALLOC(n); }
void t_free(void*p){ SIMINT_FREE(p); }
%s
'''
COUNT='int t_count(V*a,double t){ return count_prim_screen_survival(a[0],t); }'
COUNTERS=re.compile(r'\bcount_prim_screen_survival\s*\(')
def cmake_backends():
    """vector type names of the build system: name -> compile flags it uses for GNU/Clang"""
    d={}
    for f in sorted(glob.glob(S+'/cmake/DefaultFlags_*.cmake')):
        n=re.match(r'DefaultFlags_(\w+)\.cmake',os.path.basename(f)).group(1)
        t=open(f).read()
        t=re.sub(r'#[^\n]*','',t)
        i=t.find('"GNU"'); fl=[]
        if i>=0:
            m=re.search(r'SIMINT_C_FLAGS\s+"([^"]*)"',t[i:])
            if m: fl=m.group(1).split(';')
        d[n]=fl
    return d
def targets(c):
    """(label, macro, flags, extra defines/prologue, vscale)"""
    out=[]
    b=cmake_backends()
    c.need(len(b)>=8,'vector types of the build system not recognised')
    arm=['--target=aarch64-linux-gnu','-isystem','/usr/include/x86_64-linux-gnu']
    nolib='#include <features.h>\n#undef __GLIBC_MINOR__\n#define __GLIBC_MINOR__ 10\n'
    for n,fl in b.items():
        mac=n.upper(); fl=[f for f in fl if f.startswith('-m')]
        if n in('asimd','sve'):
            fl=[f for f in fl if f!='-march=native'] or ['-march=armv8-a']
            if n=='sve':
                m=[re.match(r'-msve-vector-bits=(\d+)',f) for f in fl]; bits=[int(x.group(1)) for x in m if x]
                c.need(bits,'sve: fixed vector length flag not found')
                base=[f for f in fl if not f.startswith('-msve-vector-bits')]
                for w in sorted(set(bits+[128,256]+([1024,2048] if c.thorough else []))):
                    out.append(('sve%d'%w,mac,arm+base+['-msve-vector-bits=%d'%w],'',w//128))
            else: out.append((n,mac,arm+fl,'',None))
            continue
        out.append((n,mac,fl,'',None))
        if n!='scalar':
            out.append((n+'/gcc branches',mac,fl+['-U__clang__'],'',None))
            out.append((n+'/no libmvec',mac,fl,nolib,None))
    if 'sse' in b: out.append(('sse+fma','SSE',[f for f in b['sse'] if f.startswith('-m')]+['-mfma','-DSIMINT_FMA'],'',None))
    return out
def patterns(L):
    """offset patterns: identity-free choices of destination per lane"""
    if L<=4: ps=[p for p in itertools.product(range(min(L,3)),repeat=L)]
    else:
        ps=[tuple([0]*L),tuple(range(L)),tuple(reversed(range(L)))]
        for k in range(1,L): ps.append(tuple(0 if i<k else 1 for i in range(L)))
        ps.append(tuple(i//2 for i in range(L))); ps.append(tuple(i%2 for i in range(L))); ps.append(tuple((3*i+1)%L for i in range(L)))
    return ps
def run_backend(c,label,macro,flags,pro,vs):
    safe=re.sub(r'\W','_',label)
    d=os.path.join(build.tmp(),'c16_'+safe); os.makedirs(d+'/gnu',exist_ok=True); build.config_headers(macro,d=d)
    for f in ('stubs-32.h','stubs-lp64.h'): open(d+'/gnu/'+f,'w').close()
    rs=list(range(0,140))
    fns=[COUNT]
    src=d+'/drv.c'
    def mod(cnt):
        open(src,'w').write(DRV%(pro,','.join('SIMINT_SIMD_ROUND(%d)'%x for x in rs),cnt))
        return build.module(src,[d,S],flags=flags+['-Werror=implicit-function-declaration'],vscale=vs)
    has=True
    try: m=mod(COUNT)
    except build.BuildError as e:
        has=False
        try: m=mod('')
        except build.BuildError as e:
            c.violation('%s:compiles'%label,'the back end does not compile: %s'%re.sub(r'\s+',' ',' '.join(re.findall(r'[^\n]*error:[^\n]*',str(e))))[:500],'skel/simint/vectorization'); return
    c.count('back ends'); c.units.append(label)
    k=[x[1][1] for x in llir.global_init(m.globals['K'])[1]]
    L=k[0]; loc='skel/simint/vectorization/vectorization.h'
    def ob(ok,key,msg,rule='operations'): return c.ob(ok,'%s:%s'%(label,key),'%s: %s'%(label,msg() if callable(msg) else msg),loc,rule)
    ob(k[1]==8*L,'length','vector type has %d bytes, advertised length is %d doubles'%(k[1],L),'constants')
    ob(k[2]>=k[6] and k[2]%k[6]==0 and k[2]%8==0 and k[3]%k[6]==0,'align','SIMINT_SIMD_ALIGN=%d is not an alignment for the vector type (%d)'%(k[2],k[6]),'constants')
    ob(k[4]==4*L,'align int','SIMINT_SIMD_ALIGN_INT=%d'%k[4],'constants')
    ob(k[5]%L==0 and k[5]>0,'nshell','shell batch %d is not a whole number of vectors'%k[5],'constants')
    r=[x[1][1] for x in llir.global_init(m.globals['R'])[1]]
    for x,y in zip(rs,r): ob(y==-(-x//L)*L,'round','SIMINT_SIMD_ROUND(%d)=%d'%(x,y),'constants')
    def interp():
        I=Interp(m); vec_hooks(I)
        if vs: sve_hooks(I,vs)
        al=[]
        def ah(I,p,ins,st):
            if ins.x is None or type(p) is not Ptr or type(p.o) is not int: return
            have=ALIGN.get(p.r.name)
            if p.r.kind=='alloca': have=p.r.info.x
            if have is None: return
            if have%ins.x or p.o%ins.x: al.append((p,ins,have))
        ALIGN={'o':k[6],'a':k[6],'s':k[6],'f':k[6],'p':8 if False else k[6],'d':8,'off':4}
        I.align_hook=ah
        return I,al
    def vsym(mem,r,n,nm):
        vals=[[sym('%s%d.%d'%(nm,i,j)) for j in range(L)] for i in range(n)]
        shp={}
        for i in range(n):
            for j in range(L): shp[8*(i*L+j)]=(8,vals[i][j])
        mem.wr(r).g[0]=shp
        return vals
    def out(st,r,n):
        rs_=st.mem.r.get(r); g=rs_.g.get(0,{}) if rs_ else {}
        return g
    def exec_(fn,args,mem):
        f=m.functions.get(fn); c.need(f is not None,fn)
        I,al=interp(); st=State(True,mem); rv=I.call(f,args,st); c.count('instructions',I.ninstr)
        for p,ins,have in al[:1]:
            ob(False,fn[2:]+':alignment','%s: access needs %d-byte alignment, %s is only aligned to %d'%(I.loc(ins),ins.x,p.r.name,have))
        return I,st,rv
    # element-wise operations
    one=lambda f,n:(f,n)
    spec={'neg':(neg,1),'add':(add,2),'sub':(sub,2),'mul':(mul,2),'div':(absint.f_div,2),'sqrt':(sqrt_,1),'fmadd':(lambda a,b,x:add(mul(a,b),x),3),'fmsub':(lambda a,b,x:sub(mul(a,b),x),3),'exp':(exp_,1),'pow':(absint.f_pow,2)}
    for nm,(f,n) in spec.items():
        mem=Mem(); a=Region('a','in'); o=Region('o','out'); v=vsym(mem,a,n,'a')
        I,st,_=exec_('t_'+nm,[Ptr(o,0),Ptr(a,0)],mem); g=out(st,o,1)
        w=[lift(f,*[v[i][j] for i in range(n)]) for j in range(L)]
        bad=[j for j in range(L) if 8*j not in g or not equal(g[8*j][1],w[j])]
        ob(not bad and len(g)==L,nm,lambda:'lane %s of %s is %s, expected %s'%(bad[:1],nm,str(g.get(8*bad[0]) if bad else sorted(g))[:150],str(w[bad[0]] if bad else '')[:150]))
    # loads, broadcast, masked load
    mem=Mem(); p=Region('p','in'); o=Region('o','out'); vals=[sym('p%d'%i) for i in range(3*L)]
    mem.wr(p).g[0]={8*i:(8,x) for i,x in enumerate(vals)}
    for i in (0,L,2*L):
        I,st,_=exec_('t_load',[Ptr(o,0),Ptr(p,0),i],Mem(dict(mem.r))); g=out(st,o,1)
        ob(all(8*j in g and equal(g[8*j][1],vals[i+j]) for j in range(L)) and len(g)==L,'load','vector load of element %d'%i)
    I,st,_=exec_('t_set1',[Ptr(o,0),sym('x')],Mem()); g=out(st,o,1)
    ob(all(8*j in g and equal(g[8*j][1],sym('x')) for j in range(L)) and len(g)==L,'set1','broadcast')
    for n in range(L+1):
        I,st,_=exec_('t_mask',[Ptr(o,0),n,Ptr(p,0)],Mem(dict(mem.r))); g=out(st,o,1)
        ob(all(8*j in g and equal(g[8*j][1],vals[j] if j<n else 0) for j in range(L)) and len(g)==L,'mask_load','masked load of %d lanes gives %s'%(n,str([g.get(8*j) for j in range(L)])[:200]))
    # extrema: order reasoning over the comparison outcomes
    for nm in ('min','max'):
        mem=Mem(); a=Region('a','in'); v=vsym(mem,a,1,'a')[0]
        I,st,rv=exec_('t_'+nm,[Ptr(a,0)],mem)
        if L<=8: b=bad_extremum(rv,v,nm=='max')
        else: b=None if equal(rv,_fold(absint.f_fmax if nm=='max' else absint.f_fmin,v)) else 'not the fold of all lanes'
        ob(b is None,'vector_'+nm,'vector_%s: %s'%(nm,b))
    if has:
        mem=Mem(); a=Region('a','in'); v=vsym(mem,a,1,'a')[0]; t=sym('tol')
        Lc=min(L,8)
        if L<=8:
            I,st,rv=exec_('t_count',[Ptr(a,0),t],mem); w=0
            for x in v: w=lift(add,w,ite(cnot(fgt(sub(t,x))),1,0))
            ob(equal(rv,w),'count','screening count differs from the number of lanes >= tolerance: %s'%str(rv)[:200])
    # contractions
    for nc in [1,2,3,4,5,6,7,8,9,12,15,16,17,19]+([24,31,45] if c.thorough else []):
        src=[[sym('s%d.%d'%(i,j)) for j in range(L)] for i in range(nc)]; fac=[sym('f%d'%j) for j in range(L)]
        def setup(npat):
            mem=Mem(); s=Region('s','in',8*L*nc); dd=Region('d','out',8*nc*npat); f=Region('f','in',8*L); of=Region('off','in',4*L)
            mem.wr(s).g[0]={8*(i*L+j):(8,src[i][j]) for i in range(nc) for j in range(L)}
            mem.wr(f).g[0]={8*j:(8,fac[j]) for j in range(L)}
            mem.wr(dd).g[0]={8*i:(8,sym('d%d'%i)) for i in range(nc*npat)}
            return mem,s,dd,f,of
        for fn,isf in (('contract_all',0),('contract_all_fac',1)):
            mem,s,dd,f,of=setup(1)
            I,st,_=exec_('t_'+fn,[nc]+([Ptr(f,0)] if isf else [])+[Ptr(s,0),Ptr(dd,0)],mem); g=out(st,dd,1)
            bad=None
            for i in range(nc):
                w=sym('d%d'%i)
                for j in range(L): w=add(w,mul(fac[j],src[i][j]) if isf else src[i][j])
                if 8*i not in g or not equal(g[8*i][1],w): bad=i; break
            ob(bad is None and len(g)==nc and not oob(I,dd),fn,lambda:'%s with %d elements: element %s is %s'%(fn,nc,bad,str(g.get(8*bad) if bad is not None else sorted(g))[:200]),'contractions')
        if nc not in (1,3,6) : continue
        for pat in patterns(L):
            for fn,isf in (('contract',0),('contract_fac',1)):
                np_=max(pat)+1
                mem,s,dd,f,of=setup(np_); mem.wr(of).g[0]={4*j:(4,pat[j]) for j in range(L)}
                I,st,_=exec_('t_'+fn,[nc]+([Ptr(f,0)] if isf else [])+[Ptr(of,0),Ptr(s,0),Ptr(dd,0)],mem); g=out(st,dd,1)
                bad=None
                for q in range(np_):
                    for i in range(nc):
                        w=sym('d%d'%(q*nc+i))
                        for j in range(L):
                            if pat[j]==q: w=add(w,mul(fac[j],src[i][j]) if isf else src[i][j])
                        if 8*(q*nc+i) not in g or not equal(g[8*(q*nc+i)][1],w): bad=(q,i); break
                ob(bad is None and len(g)==nc*np_ and not oob(I,dd),fn,lambda:'%s with %d elements, lane destinations %s: block/element %s wrong'%(fn,nc,pat,bad),'contractions')
    # allocation
    I,al=interp(); got=[]
    def pm(I,ins,a,st): got.append(a[1:]); return absint.b_posix_memalign(I,ins,a,st)
    I.hooks['posix_memalign']=pm
    def aa(I,ins,a,st): got.append((a[0],a[1])); return absint.b_malloc(I,ins,[a[1]],st)
    I.hooks['aligned_alloc']=aa; I.hooks['memalign']=aa
    st=State(True,Mem()); rv=I.call(m.functions['t_alloc'],[sym('n')],st)
    mal=[e for e in I.events if e.kind=='malloc']
    ok=len(mal)==1 and equal(mal[0].val,sym('n'))
    if got: ok=ok and type(got[0][0]) is int and got[0][0]%k[6]==0 and got[0][0]&(got[0][0]-1)==0
    else: ok=ok and k[6]<=16
    ob(ok,'alloc','aligned allocation requests %s for vectors aligned to %d'%(str(got)[:100],k[6]))
    if type(rv) is Ptr:
        I2,_=interp(); st2=State(True,Mem()); I2.call(m.functions['t_free'],[rv],st2)
        fr=[e for e in I2.events if e.kind=='free']
        ob(len(fr)==1 and fr[0].val==rv,'free','memory is not released exactly once')
def oob(I,r):
    return [e for e in I.events if e.kind=='store' and e.reg is r and type(e.off) is int and not (0<=e.off<=r.size-e.size)]
def _fold(f,v):
    r=v[0]
    for x in v[1:]: r=lift(f,r,x)
    return r
def bad_extremum(rv,v,mx):
    """every outcome of the comparisons that is consistent must select a lane not below (above) any other"""
    idx={key(x):i for i,x in enumerate(v)}; n=len(v)
    def facts(cv,val):
        kind,pl=CONDS[cv]
        d=pl if type(pl) is Poly else (pl[0] if type(pl) is tuple else None)
        if kind!='fgt' or type(d) is not Poly: return None
        pos=[m for m,co in d.t.items() if co==1]; ng=[m for m,co in d.t.items() if co==-1]
        if len(pos)!=1 or len(ng)!=1 or len(d.t)!=2: return None
        a=idx.get(key(Poly({pos[0]:1}))); b=idx.get(key(Poly({ng[0]:1})))
        if a is None or b is None: return None
        return (a,b,True) if val else (b,a,False)      # a>b strictly, or b>=a
    ge=[[0]*n for _ in range(n)]
    def closure(fs):
        r=[[1 if i==j else 0 for j in range(n)] for i in range(n)]   # 1: >=, 2: >
        for a,b,s in fs: r[a][b]=max(r[a][b],2 if s else 1)
        for k in range(n):
            for i in range(n):
                if r[i][k]:
                    for j in range(n):
                        if r[k][j]: r[i][j]=max(r[i][j],2 if 2 in(r[i][k],r[k][j]) else 1)
        return r
    def rec(x,fs):
        if type(x) is Gate:
            for b,y in ((True,x.hi),(False,x.lo)):
                f=facts(x.v,b)
                if f is None: return 'a comparison is not between two lanes: %s'%dom.showcond(x.v)[:80]
                fs2=fs+[f]; r=closure(fs2)
                if any(r[i][i]==2 for i in range(n)): continue
                e=rec(y,fs2)
                if e: return e
            return None
        i=idx.get(key(x))
        if i is None: return 'can return %s, which is not a lane'%str(x)[:60]
        r=closure(fs)
        for j in range(n):
            if not (r[i][j] if mx else r[j][i]): return 'lane %d is returned although lane %d may be %s'%(i,j,'larger' if mx else 'smaller')
        return None
    return rec(rv,[])
def run(c):
    for t in targets(c): run_backend(c,*t)
    # the screening count may be missing only where nothing can use it
    c.atleast('back ends',15); c.atleast('operations',400); c.atleast('contractions',600)
    c.assume.append('semantics of the x86, NEON and SVE intrinsics as in the LLVM reference; NaN-free values')
report.main('C16','proof','A driver with one function per vector operation is compiled (clang, x86-64 and AArch64 targets, the flags of the build system; also with the non-clang branches and without the vector math library) for every instruction set the build system names. Each is abstractly interpreted with symbolic lanes and must have the scalar meaning in every lane; extrema are decided by order reasoning over all comparison outcomes, contractions for many element counts and lane-to-block assignments, plus alignment of every vector access.',run) if __name__=='__main__' else None
