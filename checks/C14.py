"""C14: screening values are what they are documented to be; screening only drops negligible primitives."""
import _path, sys, time, os, itertools
import build, gen, kern, quartet, report, shapes, dom, msp, absint, vecops
from dom import *
from msp import Sh, getf, rd
from absint import Interp, Mem, State, AnalysisError
from quartet import *
from kern import components, nc
import C03
from C03 import Env
S=build.REPO+'/skel'
# ---------------------------------------------------------------- screening values
class Prog:
    """shell_screen.c and shell.c with the integral code replaced by its contract"""
    def __init__(self,c,E,A,B):
        self.c=c; self.E=E; self.mem=Mem(); self.A,self.B=A,B; self.reg=Region('shells','in'); self.calls=[]; self.bad=[]; self.ints={}
        A.put(self.mem,E.sh,self.reg,0)
        if A is not B: B.put(self.mem,E.sh,self.reg,E.sh['sizeof'])
        self.pa=Ptr(self.reg,0); self.pb=self.pa if A is B else Ptr(self.reg,E.sh['sizeof'])
    def same_pair(self,p,A,B,ents):
        """*p is a batch holding the pair A,B"""
        E=self.E; mem=self.mem
        class R: pass
        R.E=E; R.mem=mem; R.P=p.r; R.I=self.I
        if p.o!=0: return ['the shell pair is not a whole structure']
        return [m for f,m in C03.content(self.c,R,[(A,B)],[ents],0,'')]
    def eri(self,I,ins,args,st):
        P,Q,tol,work,out=args[:5]; self.mem=st.mem; n=len(self.calls)
        want=self.pairs[n] if n<len(self.pairs) else None
        if want is None: self.bad.append('more than %d integral computations'%len(self.pairs)); return 0
        A,B,ents=want
        for p,nm in ((P,'bra'),(Q,'ket')):
            if type(p) is not Ptr: self.bad.append('the %s of (ab|ab) is not a shell pair'%nm); continue
            b=self.same_pair(p,A,B,ents)
            if b: self.bad.append('the %s of (ab|ab) is not the pair %s: %s'%(nm,(A.name,B.name),b[0]))
        if not(isnum(tol) and tol<=0): self.bad.append('(ab|ab) is computed with screening tolerance %s'%str(tol)[:40])
        na,nb=nc(A.am),nc(B.am); N=(na*nb)**2
        v=[sym('I%d_%d_%d_%d_%d'%(n,x//(nb*na*nb),x//(na*nb)%nb,x//nb%na,x%nb)) for x in range(N)]
        if type(out) is not Ptr or type(out.r.size) is not int or out.r.size<8*N: self.bad.append('room for %s bytes of %d integrals'%(getattr(getattr(out,'r',None),'size',None),N))
        if type(work) is not Ptr: self.bad.append('no workspace')
        for i,x in enumerate(v): I.store(st.mem,I.ptradd(out,8*i),x,('f',64),ins.fn.mod,st,ins)
        self.calls.append((v,na,nb)); return 1
    def run(self,name,*a):
        E=self.E; I=Interp(*(E.m+E.screen)); self.I=I; I.track_alloca=True; vecops.vec_hooks(I); I.hooks['simint_compute_eri']=self.eri
        fn=[m.functions[name] for m in E.screen if name in m.functions]
        self.c.need(fn,'%s not found'%name)
        st=State(True,self.mem); dom.MAXFOLD[0]=True
        try: r=I.call(fn[0],list(a),st)
        finally: dom.MAXFOLD[0]=False
        self.mem=st.mem; self.c.count('instructions',I.ninstr)
        return r
def prims(A,B): return [(i,j) for i in range(A.nprim) for j in range(i+1 if A is B else B.nprim)]
def diag_ok(v,call,allowed_all):
    """v is a maximum over |x| for a set of integrals containing all (ij|ij)"""
    x,na,nb=call; N=na*nb
    mags={key(func('fabs',y)) if not isnum(y) else None:k for k,y in enumerate(x)}
    need={i*N+i for i in range(N)}; s=set()
    for y in maxset(v):
        if isnum(y) and y==0: continue
        k=mags.get(key(y))
        if k is None: return 'a candidate is %s'%str(y)[:80]
        s.add(k)
    if not need<=s: k=sorted(need-s)[0]; return 'integral %s is not among the candidates of the maximum'%x[k]
    if not allowed_all and s-need: return None
    return None
def sprim(E,A,B,i,j):
    a=Sh('%s_%d'%(A.name,i),1,A.am,xyz=A.xyz); b=Sh('%s_%d'%(B.name,j),1,B.am,xyz=B.xyz)
    a.al=[A.al[i]]; a.co=[A.co[i]]; b.al=[B.al[j]]; b.co=[B.co[j]]
    return a,b
def estimate(A,B,i,j):
    a,b=A.al[i],B.al[j]; p=add(a,b); D=[sub(x,y) for x,y in zip(A.xyz,B.xyz)]; r2=add(add(mul(D[0],D[0]),mul(D[1],D[1])),mul(D[2],D[2]))
    v=mul(mul(sqrt_(2),rpow(PI(),Fraction(5,2))),rpow(inv(p),Fraction(5,2)))
    v=mul(v,exp_(scale(mul(mul(mul(a,b),inv(p)),r2),-2)))
    return mul(v,mul(mul(A.co[i],A.co[i]),mul(B.co[j],B.co[j])))
def values(c,E,spec,am,entries):
    for name,method in entries:
        shell=name.startswith('simint_shellscreen'); fast='fast' in name or method==E.methods['SIMINT_SCREEN_FASTSCHWARZ']
        for nullout in ((False,) if shell else (False,True)):
            A=Sh('A',spec[0],am[0]); B=A if len(spec)==1 else Sh('B',spec[1],am[1])
            if len(spec)==1 and am[0]!=am[1]: continue
            G=Prog(c,E,A,B); pr=prims(A,B)
            G.pairs=[] if fast else [(A,B,msp.entries(A,B))] if shell else [(lambda a,b:(a,b,msp.entries(a,b)))(*sprim(E,A,B,i,j)) for i,j in pr]
            out=Region('screen','out'); out.size=8*len(pr)
            args=[G.pa,G.pb]+([] if shell else [0 if nullout else Ptr(out,0)])+([] if method is None else [method])
            key='%s%s:%s:%s'%(name,'' if method is None else '/%d'%method,'x'.join(map(str,spec)),am); loc='simint/shell/shell_screen.c:%s'%name
            try: r=G.run(name,*args)
            except AnalysisError as e: c.violation(key+':analysis','cannot be followed: %s'%str(e)[:300],loc); continue
            bad=list(G.bad)
            if len(G.calls)!=len(G.pairs): bad.append('%d integral computations instead of %d'%(len(G.calls),len(G.pairs)))
            elif shell:
                if fast:
                    w=0
                    for i,j in pr: w=add(w,estimate(A,B,i,j))
                    if not equal(r,w): bad.append('the returned value is %s, expected the sum of the s-type estimates %s'%(str(r)[:160],str(w)[:160]))
                else:
                    e=diag_ok(r,G.calls[0],True)
                    if e: bad.append('the returned value is not the largest integral of (ab|ab): %s'%e)
            else:
                vals=[]
                for k,(i,j) in enumerate(pr):
                    if fast: vals.append([estimate(A,B,i,j)])
                    else: vals.append(None)
                    if nullout: continue
                    v=rd(G.mem,G.I,Ptr(out,0),8*k,8,'d')
                    if v is None: bad.append('no value is stored for primitive pair (%d,%d)'%(i,j)); continue
                    if fast:
                        if not equal(v,vals[-1][0]): bad.append('value of primitive pair (%d,%d) is %s, expected %s'%(i,j,str(v)[:160],str(vals[-1][0])[:160]))
                    else:
                        e=diag_ok(v,G.calls[k],False)
                        if e: bad.append('value of primitive pair (%d,%d) is not the largest (ij|ij): %s'%(i,j,e))
                if not nullout:
                    rs=G.mem.r.get(out)
                    if rs is None or set(rs.g.get(0,{}))!=set(range(0,8*len(pr),8)): bad.append('stores outside the %d values'%len(pr))
                # the returned maximum covers every pair
                got=maxset(r)
                if fast:
                    w={dom.key(v[0]) for v in vals}; g={dom.key(y) for y in got if not(isnum(y) and y==0)}
                    if g!=w: bad.append('the returned maximum is taken over %d values, expected the %d pairs'%(len(g),len(w)))
                else:
                    for k in range(len(pr)):
                        sub_=[y for y in got if not isnum(y) and str(y).find('I%d_'%k)>=0]
                        e=diag_ok(maxof_all(sub_),G.calls[k],True)
                        if e: bad.append('the returned maximum does not cover pair %s: %s'%(pr[k],e))
                    if any(isnum(y) and y!=0 for y in got): bad.append('the returned maximum includes a constant')
            c.count('screening value programs'); c.count('values compared',1+(0 if shell or nullout else len(pr)))
            c.ob(not bad,key,'; '.join(bad[:2]),loc,'screening value is the documented formula')
def maxof_all(l):
    if not l: return 0
    r=l[0]
    for x in l[1:]: r=maxof(r,x)
    return r
def part_values(c):
    cfg=[('SCALAR',1,(),1)]+([('AVX2',4,('-mavx2','-mfma'),1)] if c.thorough else [])
    for vec,ln,fl,der in cfg:
        E=Env(c,vec,ln,fl,der); inc=build.tmp()+'/cfg_%s_STUB%d'%(vec,der)
        E.screen=[build.module(S+'/simint/shell/shell_screen.c',[inc,S],flags=fl)]
        f=build.tmp()+'/meth.c'; M=['SIMINT_SCREEN_SCHWARZ','SIMINT_SCREEN_FASTSCHWARZ']
        open(f,'w').write('#include "simint/simint_eri.h"\n#include "simint/constants.h"\n#include "simint/shell/shell.h"\nconst long L[]={%s};\n'%','.join(M))
        import llir
        v=llir.global_init(build.module(f,[inc,S]).globals['L']); E.methods=dict(zip(M,[x[1][1] for x in v[1]]))
        c.need(len(set(E.methods.values()))==2 and 0 not in E.methods.values(),'screening method codes')
        s,fs=E.methods['SIMINT_SCREEN_SCHWARZ'],E.methods['SIMINT_SCREEN_FASTSCHWARZ']
        ent=[('simint_shellscreen_schwarz',None),('simint_shellscreen_fastschwarz',None),('simint_primscreen_schwarz',None),('simint_primscreen_fastschwarz',None)]
        gen_=[('simint_shellscreen',s),('simint_shellscreen',fs),('simint_primscreen',s),('simint_primscreen',fs)]
        for spec,am in [((1,1),(0,0)),((2,3),(0,0)),((3,),(0,0)),((2,1),(1,0)),((1,2),(0,1)),((2,),(1,1)),((1,1),(1,1)),((1,1),(2,0))]+([((1,1),(2,1)),((1,1),(0,3)),((2,2),(1,1)),((4,3),(0,1)),((5,),(0,0))] if c.thorough else []):
            values(c,E,spec,am,ent+(gen_ if sum(am)<2 else []))
# ---------------------------------------------------------------- kernels
T=Fraction(1,2); HI=1; LO=Fraction(1,10); Z=Fraction(1,100)
def analyse(Q,name,job):
    import C15
    am,der=am_name(name); mod=Q.kmods[name]; pn,qn,cp,cq,sp,sq,tol=job
    C=Q.case(pn,qn,clipP=cp,clipQ=cq,screens=(sp,sq),tol=tol); comp=components(am); n=len(comp)*(12 if der else 1)
    I=C.run(Q.mods+[mod],name,outsize=8*n*C.P['clip']*C.Q['clip'])
    flat,oth=C.outputs(); bad=[]; nb=0; Ty=C.Ty; tot=0; sP,sQ=C.P['v']['screen'],C.Q['v']['screen']; inc=set(); skipped=set()
    must={(i,j) for i in C.P['real'] for j in C.Q['real'] if sP[i]*sQ[j]>=tol}
    for ab in range(C.P['clip']):
        for cd in range(C.Q['clip']):
            con=C15.contributions(C,ab,cd); base=(ab*C.Q['clip']+cd)*n
            for k,e in enumerate(comp):
                if not der: refs=[(k,[C15.addall([Ty.theta(e,0,ij) for ij in con])])]
                else:
                    refs=[]
                    for d in range(3):
                        cen=[C15.addall([C15.dcen(C,e,w,d,ij) for ij in con]) for w in range(4)]
                        for w in range(4): refs.append((12*k+3*w+d,[cen[w],neg(add(add(*[cen[x] for x in range(4) if x!=w][:2]),[cen[x] for x in range(4) if x!=w][2]))]))
                for o,ref in refs:
                    tot+=1; v=flat.get(8*(base+o)); m=None
                    if v is None: m='not written'
                    else: m=min((mismatch(C,v,r,must,inc,skipped) for r in ref),key=lambda x:x is not None)
                    if m:
                        nb+=1
                        if len(bad)<4: bad.append((ab,cd,e,C.where(8*(base+o)),m))
    pr=[]
    if inc&skipped: pr.append('primitive pairs %s are included in some components and left out of others'%sorted(inc&skipped)[:4])
    if len(flat)!=tot or oth: pr.append('writes %d values, the output has %d'%(len(flat),tot))
    if C.over: pr.append('outside an object: %s'%(C.over[:3],))
    if C.ret!=C.P['clip']*C.Q['clip']: pr.append('returns %s for %d shell quartets'%(str(C.ret)[:60],C.P['clip']*C.Q['clip']))
    return bad,nb,tot,pr,I.ninstr,len(skipped)
def mismatch(C,v,ref,must,inc,skipped):
    """None when v is ref less some of the primitive pairs that may be left out"""
    if not type(v) is Poly and not isnum(v): return 'value %s'%str(v)[:100]
    g=C.Ty.split(v) if type(v) is Poly else ({} if v==0 else None)
    if g is None: return 'value %s'%str(v)[:120]
    w=C.Ty.split(ref) if type(ref) is Poly else {}
    extra=sorted({k[0] for k in g if k not in w}); diff=sorted({k[0] for k in w if k in g and g[k]!=w[k]}); miss={k[0] for k in w if k not in g}
    lost=sorted(miss&must); part=sorted(miss&{k[0] for k in g})
    if extra or diff or lost or part: return 'significant primitive pairs %s are left out, foreign pairs %s, wrong contribution of pairs %s'%(lost[:6],extra[:6],sorted(set(diff)|set(part))[:6])
    skipped|=miss; inc|={k[0] for k in w if k in g}
    return None
def vec_patterns(nv,rich,seed):
    allp=list(range(2**nv))
    if rich and nv<=4: return allp
    k=[0,2**nv-1,0x5555&(2**nv-1),0xAAAA&(2**nv-1),1,1<<(nv-1)]
    return sorted(set(k))
def ranks(C,L,pn,qn,bits,turn):
    """ket values: the vectors whose bit is set hold one or more significant lanes"""
    pl=msp.Plan(qn,L); own=[]
    for k,n in enumerate(qn): own+=[pl.start[k]+i for i in range(n)]
    # vectors as the kernel sees them: batches of 2L pairs, each starting on a vector boundary
    vecs={}
    for o in own: vecs.setdefault(o//L,[]).append(o)
    v=sorted(vecs); sc={}
    for n,x in enumerate(v):
        l=vecs[x]
        for m,o in enumerate(l): sc[o]=LO
        if bits>>n&1:
            sc[l[(turn+n)%len(l)]]=HI
            if turn&1 and len(l)>2: sc[l[(turn+n+2)%len(l)]]=HI
    return [sc[o] for o in own],len(v)
def shapes_for(L,rich):
    mix=lambda n,o=0: [(1,2,1,3,L+1,1,1,2)[(k+o)%8] for k in range(n)]
    S=[([2],mix(3)),([1,2],mix(4,3))]
    if rich: S+=[([3],[1]*(2*L+1)),([1,2],mix(2*L+1,1)),([2,1],[1,L,1,2*L]),([1],[2*L+1,1,L]),([1],[3]*(2*L+2))]
    return S
def jobs_for(L,rich,deep,seed):
    out=[]
    for pn,qn in shapes_for(L,rich):
        nv=ranks(None,L,pn,qn,0,0)[1]
        for t,b in enumerate(vec_patterns(nv,rich,seed)):
            sq,_=ranks(None,L,pn,qn,b,t)
            np_=sum(pn); sp=[(HI,Z,4,Fraction(11,2))[(k+t)%(4 if deep else 3)] for k in range(np_)]
            out.append((pn,qn,None,None,sp,sq,T))
        # the threshold itself is significant; zero tolerance keeps everything
        out.append((pn,qn,None,None,[T]*sum(pn),[HI if k%3==0 else T for k in range(sum(qn))],T))
        out.append((pn,qn,None,None,[0]*sum(pn),[0]*sum(qn),0))
    out.append(([1,2],[2,1,1],1,2,[HI,LO,HI],[LO,HI,LO,HI],T))
    return out
def part_kernels(c):
    L=gen.generate('inline',dict(l=1,p=2,ve=20,vg=20,he=20,hg=20,d=1))
    todo=[(L,'inline','SCALAR',None),(L,'inline','SSE',None),(L,'inline','AVX2',None),(L,'inline','COMMONAVX512',None),(L,'inline','MICAVX512',('ostei_s_s_s_s',))]
    if c.thorough:
        G=gen.generate('general',dict(l=1,p=2,ve=0,vg=0,he=0,hg=0,d=1)); todo+=[(G,'general',v,None) for v in('SCALAR','SSE','AVX2','COMMONAVX512')]
    nskip=0
    for lib,ln,vec,only in todo:
        Q=QLib(lib,vec); Q.kmods={}; t0=time.time(); ks=[k for k in Q.kernels(0)+Q.kernels(1) if only is None or k in only]
        for k in ks: Q.kmods[k]=Q.module(k)
        rich={'ostei_s_s_s_s','ostei_p_s_s_s','ostei_s_s_p_s','ostei_deriv1_s_s_s_s'}; few={'ostei_p_s_p_s','ostei_p_p_p_s','ostei_deriv1_p_s_s_s','ostei_p_p_p_p','ostei_s_s_p_p'}
        jobs=[]
        for k in ks:
            if k not in rich|few and not c.thorough and sum(am_name(k)[0])>1: js=jobs_for(Q.L,False,False,0)[:1]
            else: js=jobs_for(Q.L,k in rich or(c.thorough and k in few),c.thorough,0)
            am,der=am_name(k)
            for j in js:
                w=sum(j[0])*sum(j[1])*(12 if der else 1)
                for a in am: w*=3**a
                if w*(1+sum(am)+der)>(1500 if not c.thorough else 20000)*(1 if Q.L<8 else 2): c.count('combinations too large for this tier'); continue
                jobs.append((w,k,j))
        jobs.sort(reverse=True,key=lambda j:j[0])
        for (w,k,j),r,err,dt in pool(jobs,lambda j:analyse(Q,j[1],j[2])):
            loc='%s/%s.c'%(ln,k); sh='%s, bra primitives %s values %s, ket primitives %s values %s, tolerance %s'%(vec,j[0],'/'.join(map(str,j[4])),j[1],'/'.join(map(str,j[5])),j[6])+(', clipped to %s,%s'%j[2:4] if j[2] else '')
            if err: c.violation(k,'[%s] cannot be followed: %s'%(sh,err),loc); continue
            bad,nb,tot,pr,ni,ns=r; nskip+=ns; c.count('routine x shape x screening pattern'); c.count('programs'); c.count('output sums compared',tot); c.nob+=tot-nb; c.nok+=tot-nb; c.count('instructions',ni); c.count('primitive quartets left out',ns)
            for ab,cd,e,l,m in bad: c.violation(k+':sum','[%s] quartet (%d,%d) component %s: %s'%(sh,ab,cd,e,m),l or loc)
            c.ob(not pr,k+':extent','[%s] %s'%(sh,'; '.join(pr)),loc,'screened loop writes exactly the output')
        print('  %s %s: %d jobs %.1f s'%(ln,vec,len(jobs),time.time()-t0)); sys.stdout.flush()
    c.atleast('routine x shape x screening pattern',150); c.need(nskip>0,'no primitive was ever screened out: the analysis does not exercise screening')
def run(c):
    c.assume+=['exact real arithmetic','screening values enter the control flow of a routine only through comparisons with the tolerance; patterns of significant and negligible vectors are enumerated','shell and batch shapes as enumerated','the integral code computes the integrals it is asked for (C09, C12)']
    part_values(c); part_kernels(c)
    c.atleast('screening value programs',60)
if __name__=='__main__':
    report.main('C14','translation_validation','(1) Every screening routine and the two dispatchers are abstractly interpreted with symbolic shells, the integral computation replaced by its contract: stored values, returned maxima and the shell pairs integrated must be the documented formulas. (2) Generated routines are interpreted per vector back end with screening values and a tolerance, over enumerated patterns of negligible and significant vectors and bra primitives: every output must be the exact sum over its own primitive pairs, where only pairs below the tolerance may be left out, completely and consistently.',run)
