"""C13: the advertised workspace is enough for every routine, and intermediates of different shell quartets never share storage."""
import _path, sys, time, os
import build, gen, kern, quartet, report, shapes, llir, vecops, modular
from dom import *
from absint import Interp, Mem, State, AnalysisError
from quartet import *
def _w(n):
    """unrelated large weights, so that sums do not cancel by accident"""
    x=(n*0x9E3779B97F4A7C15+0x1234567)&(2**64-1); x^=x>>29; x=(x*0xBF58476D1CE4E5B9)&(2**64-1)
    return (x>>20)+3
class Tag(kern.Case):
    """values are abstracted to the set of input shell pairs they were computed from"""
    def side(self,nm,nps,L,screens,der,clip):
        s=kern.Case.side(self,nm,nps,L,screens,der,clip); self.tags=getattr(self,'tags',{}); own=s['own']
        for k in range(len(nps)): self.tags[nm,k]=shapes.pos('%s<%d>'%(nm,k))
        fields=[f for f in s['v'] if f!='screen']; n=0
        for f in fields:
            if len(s['v'][f])==len(own) and f not in('AB_x','AB_y','AB_z'): vals=[s['v'][f][i] if own[i] is None else self.weigh(self.tags[nm,own[i]]) for i in range(len(own))]
            else: vals=[self.weigh(self.tags[nm,k]) for k in range(len(nps))]
            shapes.arr(self.mem,s['r'][f],vals); s['v'][f]=vals
        return s
    n=0
    def weigh(self,t):
        Tag.n+=1
        return scale(t,_w(Tag.n))
    def geom(self,i,j): pass
    def atoms(self,v):
        if type(v) is Gate: raise AnalysisError('the value depends on a comparison of floating-point data')
        out=set(); st=[v]
        while st:
            x=st.pop()
            if type(x) is not Poly: continue
            for m in x.t:
                for a,e in m:
                    if a in self.ids: out.add(a)
                    else: st+=self.inner(a)
        return out
    def inner(self,a):
        k=ATOMS[a]; r=[]
        def rec(y):
            if type(y) is Poly: r.append(y)
            elif type(y) in(tuple,list):
                for z in y: rec(z)
        rec(k[1:])
        return r
    def fold(self,v):
        if type(v) is not Poly: return v
        s=self.atoms(v)
        if not s: return v
        Tag.n+=1; r=Poly({((a,1),):_w(Tag.n*64+a) for a in s})
        return r
    def boys(self,I,ins,args,st):
        F,T,n=args
        if type(n) is not int: raise AnalysisError('order of the Boys function not resolved at %s'%I.loc(ins))
        lanes=T if type(T) is tuple else (T,)
        for m in range(n+1):
            for q,t in enumerate(lanes): I.store(st.mem,I.ptradd(F,8*(m*len(lanes)+q)),self.fold(t),('f',64),ins.fn.mod,st,ins)
    def go(self,mods,name,**k):
        self.ids={next(iter(t.t))[0][0]:kk for kk,t in self.tags.items()}; self.Ty.fold=self.fold
        return self.run(mods,name,**k)
def advertised(c,lib,vec):
    """[derivative order][maximum angular momentum] -> doubles"""
    inc=lib.incs(vector=vec); m=build.module(lib.path+'/simint/simint_eri.c',inc,flags=VFLAGS[vec])
    nd=lib.opts.get('d',0)+1; na=lib.opts['l']+1; T={}
    for d in range(nd):
        for a in range(na):
            I=Interp(m); st=State(True,Mem()); w=I.call(m.functions['simint_eri_worksize'],[d,a],st)
            I=Interp(m); b=I.call(m.functions['simint_eri_workmem'],[d,a],State(True,Mem()))
            T[d,a]=w; key='%s:worksize:%d:%d'%(vec,d,a)
            c.ob(type(w) is int and w>=0 and type(b) is int and b>=8*w,key,'simint_eri_worksize(%d,%d)=%s, simint_eri_workmem=%s bytes'%(d,a,str(w)[:60],str(b)[:60]),'simint_eri.c','advertised sizes agree')
            if a and type(w) is int and type(T[d,a-1]) is int: c.ob(w>=T[d,a-1],key+':monotone','workspace for maximum %d is smaller than for %d'%(a,a-1),'create.py','advertised sizes grow with the maximum')
    return T
def analyse(Q,name):
    am,der=am_name(name); mod=Q.module(name); NS=2*Q.L
    ncomp=1
    for a in am: ncomp*=kern.nc(a)
    n=ncomp*(12 if der else 1)
    C=Tag(Q.lay,Q.L,[1,1],[1]*NS,der=Q.der) if Q.full else Tag(Q.lay,Q.L,[1],[1]*(NS-1)+[2],der=Q.der)
    I=C.go(Q.mods+[mod],name,outsize=8*n*C.P['clip']*C.Q['clip'])
    flat,oth=C.outputs(); bad=[]
    for ab in range(C.P['clip']):
        for cd in range(C.Q['clip']):
            want={('P',ab),('Q',cd)}
            for k in range(n):
                o=8*((ab*C.Q['clip']+cd)*n+k); v=flat.get(o)
                got={C.ids[a] for a in C.atoms(v)} if v is not None else None
                if got is None: bad.append((C.where(o),'output %d of quartet (%d,%d) is not written'%(k,ab,cd)))
                elif got-want: bad.append((C.where(o),'output %d of quartet (%d,%d) also depends on %s: intermediates of different quartets share storage'%(k,ab,cd,sorted(got-want)[:3])))
                elif want-got: bad.append((C.where(o),'output %d of quartet (%d,%d) does not depend on %s'%(k,ab,cd,sorted(want-got))))
    return C.wtop,bad[:3],[x for x in C.over][:3],I.ninstr
def run(c):
    c.assume+=['extents do not depend on the number of primitives (C15 analyses the primitive loops); one full batch of ket pairs is analysed per routine','one primitive pair per shell pair here, two in the last']
    X=gen.generate('external',dict(l=2,p=2,ve=0,vg=5,he=0,hg=20,d=1)); N=gen.generate('inline',dict(l=2,p=2,ve=20,vg=20,he=20,hg=20,d=1)); G=gen.generate('general',dict(l=2,p=3,ve=0,vg=0,he=0,hg=0,d=1))
    todo=[(X,'external','SCALAR',8 if not c.thorough else 99),(X,'external','AVX2',4 if not c.thorough else 99),(N,'inline','SSE',4 if not c.thorough else 99),(N,'inline','COMMONAVX512',2 if not c.thorough else 99),(G,'general','SCALAR',4 if not c.thorough else 99)]
    for lib,ln,vec,lim in todo:
        t0=time.time(); T=advertised(c,lib,vec); Q=QLib(lib,vec); Q.full=False
        ks=[k for k in Q.kernels(0)+Q.kernels(1) if sum(am_name(k)[0])+am_name(k)[1]<=lim]
        ks.sort(key=lambda k:-os.path.getsize(Q.source(k)))
        for k,r,err,dt in pool(ks,lambda k:analyse(Q,k)):
            am,der=am_name(k); loc='%s/%s.c'%(ln,k); key='%s/%s:%s'%(ln,vec,k)
            if err: c.violation(key+':analysis','cannot be followed: %s'%err,loc); continue
            wtop,bad,over,ni=r; w=T[der,max(am)]; c.count('programs'); c.count('IR instructions interpreted',ni)
            c.ob(type(w) is int and wtop<=8*w,key+':size','uses %d bytes of workspace, simint_eri_worksize(%d,%d) advertises %s'%(wtop,der,max(am),8*w if type(w) is int else w),loc,'workspace used within the advertised size')
            c.ob(not bad,key+':sharing','; '.join(m for l,m in bad),bad[0][0] if bad else loc,'outputs depend on exactly their own shell pairs')
            c.ob(not over,key+':bounds','%s'%(over[:2],),loc,'accesses inside their objects')
            if dt>20: print('   ',k,'%.0f s'%dt)
        print('  %s %s: %d routines %.1f s'%(ln,vec,len(ks),time.time()-t0)); sys.stdout.flush()
    # the largest layouts: every operand of every step is complete and not overwritten by another intermediate
    L=gen.generate('general3',gen.GENERAL); T=advertised(c,L,'SCALAR'); Q=QLib(L,helpers=False); t0=time.time()
    ks=sorted([k for k in Q.kernels(0)+Q.kernels(1) if not(am_name(k)[1]) or c.thorough or sum(am_name(k)[0])>=11],key=lambda k:-os.path.getsize(Q.source(k)))
    hi=[(4,4,4,4),(5,5,4,3),(5,5,5,5)] if not c.thorough else [(i,j,k,l) for i in range(4,7) for j in range(i+1) for k in range(i+1) for l in range(k+1)]
    for j,r,err in modular.check_all(c,[(Q,am,0) for am in hi]+[(Q,k) for k in ks]):
        k=name_of(*modular.amd(j)); key='general/SCALAR:%s:layout'%k; loc='general/%s.c'%k
        if err: c.violation(key,'cannot be followed: %s'%err,loc); continue
        prob,st=r
        if prob is None: continue
        am,der=am_name(k); c.count('programs'); c.count('recurrence steps with intact operands',st['steps']); c.count('IR instructions interpreted',st['instr'])
        if len(j)==2: w=T[der,max(am)]; c.ob(type(w) is int and st['wtop']<=8*w,key+':size','uses %d bytes of workspace, simint_eri_worksize(%d,%d) advertises %s'%(st['wtop'],der,max(am),8*w if type(w) is int else w),loc,'workspace used within the advertised size')
        c.ob(not prob,key,'; '.join(m for l,m in prob[:3]),prob[0][0] if prob else loc,'intermediates occupy disjoint parts of the workspace')
    print('  large layouts: %.1f s'%(time.time()-t0)); sys.stdout.flush()
    c.atleast('programs',150)
if __name__=='__main__':
    report.main('C13','translation_validation','Every generated routine is abstractly interpreted over exact addresses and a dependence domain (each floating-point value is the set of shell pairs it was computed from), with a full batch of ket shell pairs: the highest workspace byte touched must be below what the size functions advertise for that derivative order and maximum angular momentum, every access must stay inside its object, and every output must depend on exactly its own two shell pairs.',run)
