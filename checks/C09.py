"""C09: the generated energy routines compute exactly the requested integrals."""
import _path, sys, time, os
import build, gen, kern, quartet, report, modular, itertools
from quartet import *
import shapes
from dom import *
from absint import *
from kern import components, nc, up
def analyse(Q,name,mod=None):
    """-> (list of (component, location, message)), stats"""
    am,_=am_name(name); mod=mod or Q.module(name)
    if other_kernel(mod,name): return None,{}
    C=Q.case([1],[1],simple=True); I=C.run(Q.mods+[mod],name)
    flat,oth=C.outputs(); bad=[]; comp=components(am); z=(0,0)
    for k,e in enumerate(comp):
        v=flat.get(8*k); w=C.Ty.theta(e,0,z)
        if v!=w: bad.append((k,e,C.where(8*k),str(v)[:300]))
    extra=[o for o in flat if o>=8*len(comp)]
    return bad,dict(n=len(comp),extra=extra,over=C.over[:3],oth=len(oth),ret=C.ret,instr=I.ninstr,sus=C.suspects(),called=sorted(f for f in I.ncalls if f.startswith(('VRR_','HRR_','ostei_general'))) if hasattr(I,'ncalls') else [])
# ---- horizontal recurrence routines emitted as separate functions, also for sizes no analysed quartet reaches
def helper(job):
    """HRR_<letter>_<a>_<b> for every specialised and two unspecialised block lengths"""
    lib,let,a,b=job; d=build.tmp()+'/hrr_%s_%d_%d'%(let,a,b); os.makedirs(d,exist_ok=True); f=d+'/hrr.c'; bra=let in 'IJ'
    build.sh([gen.generator()+'/ostei_hrr_generator','-q',str(a),str(b),'-o',f,'-oh',d+'/hrr.h']+(['-bra'] if bra else [])+({'I':['-bra_i'],'K':['-ket_k']}.get(let,[])))
    m=build.module(f,lib.incs(vector='SCALAR')); nm='HRR_%s_%s_%s'%(let,LET[a],LET[b]); fn=m.functions[nm]; bad=[]; nob=0
    low=(a-1,b) if let in 'IK' else (a,b-1); hi=(a-1,b+1) if let in 'IK' else (a+1,b-1)
    D=[sym('h'+x) for x in 'xyz']; T=kern.Types(); T.weights=set(); T.boys={}
    for n in [1,3,6,10,15,21,28,36,45,55,66,78,91,105,120,9,18]:
        if n>20 and nc(a)*nc(b)*n>4000 and n not in(21,120): continue
        T.geo[0,0]=dict(AB=D,CD=D)
        def val(e,k): return T.theta((e[0],e[1],(k,0,0),(0,0,0)),0,(0,0))
        err=None
        for order in ((low,hi),(hi,low)):
            mem=Mem(); H=Region('h','in'); O=Region('out','out'); args=[Ptr(O,0)]; shapes.arr(mem,H,D)
            for q,am in enumerate(order):
                R=Region('src%d'%q,'in',8*nc(am[0])*nc(am[1])*n); cs=components(am)
                v=[val(e,k) for e in cs for k in range(n)] if bra else [val(e,k) for k in range(n) for e in cs]
                shapes.arr(mem,R,v); args.append(Ptr(R,0))
            I=Interp(m); st=State(True,mem)
            I.call(fn,args+[Ptr(H,0),n],st)
            g=st.mem.r[O].g.get(0,{}); w=components((a,b)); err=[]
            for x,e in enumerate(w):
                for k in range(n):
                    o=8*(x*n+k if bra else k*len(w)+x); v=g.get(o,(8,None))[1]
                    if type(v) is Poly and not T.isrow(v,(e[0],e[1],(k,0,0),(0,0,0)),let in 'IJ',low): err.append((e,k,str(v)[:200]))
                    elif type(v) is not Poly: err.append((e,k,'not written'))
            if len(g)!=len(w)*n: err.append((None,None,'writes %d values instead of %d'%(len(g),len(w)*n)))
            if not err: break
        nob+=nc(a)*nc(b)*n
        bad+=[(n,)+x for x in err[:2]]
    return bad,nob
def isrow(T,v,e,bra,low):
    """v is some horizontal step (in any admissible direction) giving the integral over e from the two lower pairs"""
    for w in (0,1):
        for d in range(3):
            if e[w][d]==0: continue
            f=up(e,w,d,-1)
            if (sum(f[0]),sum(f[1]))!=low: continue
            x=mul(T.geo[0,0]['AB'][d],T.theta(f,0,(0,0))); r=T.theta(up(f,w^1,d),0,(0,0))
            if v==(add(r,x) if w else sub(r,x)): return True
    return False
kern.Types.isrow=isrow
def high(job):
    """one quartet of higher angular momentum, emitted directly"""
    Q,am,der,opt=job; nm=name_of(am,der); d=build.tmp()+'/hi_%s_%s'%(nm,'_'.join(opt)); os.makedirs(d,exist_ok=True); f=d+'/'+nm+'.c'
    build.sh([gen.generator()+('/ostei_deriv1_generator' if der else '/ostei_generator'),'-q']+[str(x) for x in am]+['-o',f,'-oh',d+'/h.h']+list(opt))
    return analyse(Q,nm,build.module(f,Q.inc))
def libs(c):
    q=dict(external=dict(gen.EXTERNAL,d=0),inline=dict(gen.INLINE,d=0),general=dict(gen.GENERAL,d=0),mix=dict(l=2,p=1,ve=2,vg=6,he=2,hg=4,d=0),inline_np=dict(l=2,p=3,ve=20,vg=20,he=20,hg=20,d=0),external_np=dict(l=2,p=3,ve=0,vg=20,he=0,hg=20,d=0))
    if c.thorough:
        q.update(mixgv=dict(l=2,p=0,ve=0,vg=20,he=20,hg=0,d=0),g4=dict(l=4,p=2,ve=20,vg=20,he=20,hg=20,d=0),e3=dict(l=3,p=3,ve=0,vg=20,he=0,hg=20,d=0),i3=dict(l=3,p=0,ve=20,vg=20,he=20,hg=20,d=0))
    return q
def cost(n): 
    am,_=am_name(n); L=sum(am); x=1
    for a in am: x*=nc(a)
    return x*(L+2)**3
def run(c):
    c.assume+=['exact real arithmetic','one primitive per pair here; sums over primitives and batches are the subject of C15','generated with the Psi4 ordering','Boys function values are those of C06']
    limit=3.2e7 if c.thorough else 2.4e6
    for nm,opts in libs(c).items():
        L=gen.generate(nm,opts); Q=QLib(L); ks=Q.kernels()
        lim=limit if nm!='general' or c.thorough else 3e5  # the larger ones of this library are followed step by step below
        jobs=sorted([k for k in ks if cost(k)<=lim],key=cost,reverse=True); t0=time.time()
        if nm!='general': c.count('routines too large for this tier',len(ks)-len(jobs))
        else: GK,GQ=ks,Q
        for n,r,err,dt in pool(jobs,lambda n:analyse(Q,n)):
            loc='%s/%s.c'%(nm,n); key='%s'%n
            if err: c.violation(key,'the routine cannot be followed: %s'%err,loc); continue
            bad,st=r
            if bad is None: c.count('permutation wrappers (C11)'); continue
            c.count('programs'); c.count('IR instructions interpreted',st['instr'])
            if len(c.units)<300: c.units.append('%s:%s'%(nm,n))
            c.nob+=st['n']-len(bad); c.nok+=st['n']-len(bad); c.count('output component equals the integral of that component',st['n'])
            for k,e,l,v in bad[:6]: c.violation(key+':value','[%s] output %d should be the integral over %s, is %s; first untyped intermediates: %s'%(nm,k,e,v,st['sus']),l or loc)
            c.ob(not st['extra'] and not st['oth'],key+':extent','writes outside the output block: %s'%st['extra'][:4],loc,'writes only the output block')
            c.ob(not st['over'],key+':bounds','access outside an object: %s'%st['over'],loc,'accesses inside objects')
            c.ob(st['ret']==1,key+':count','returns %s for one shell quartet'%str(st['ret'])[:80],loc,'returns the number of shell quartets')
        print('  %s: %d routines %.1f s'%(nm,len(jobs),time.time()-t0)); sys.stdout.flush()
    # large routines, compositionally
    what='output component equals the integral of that component'
    modular.run(c,[(GQ,k) for k in GK],what,'general')
    X=QLib(gen.generate('e3',dict(l=3 if not c.thorough else 4,p=3,ve=0,vg=20,he=0,hg=20,d=0)))
    modular.run(c,[(X,k) for k in X.kernels() if not c.thorough or sum(am_name(k)[0])<13],what,'external, f')
    top=6 if c.thorough else 4
    pr=[(i,j) for i in range(top+1) for j in range(i+1)]
    hi=[p+q for n,p in enumerate(pr) for q in pr[:n+1] if max(p+q)>3]
    hi+=[am for am in itertools.product(range(3),repeat=4) if sum(am)] if not c.thorough else [am for am in itertools.product(range(4),repeat=4) if sum(am)]
    hi+=[(0,4,0,4),(1,4,2,3),(4,2,3,4),(0,5,5,0),(5,1,0,5),(3,4,0,0),(0,0,1,6),(2,5,1,1),(0,7,1,0),(7,0,0,7),(0,8,0,0),(5,5,5,5) if c.thorough else (5,4,3,3)]
    modular.run(c,[(GQ,am,0) for am in dict.fromkeys(hi)],what,'emitted with the general steps')
    lmax=5 if c.thorough else 3; t0=time.time()
    jobs=[(L,x,a,b) for x in 'IJKL' for a in range(lmax+3) for b in range(lmax+3) if a+b<=2*lmax+1 and ((a>0 and b>=0 and a<=b+1) if x in 'IK' else (b>0 and b<=a+1))]
    for j,r,err,dt in pool(sorted(jobs,key=lambda j:-nc(j[2])*nc(j[3])),helper):
        nm='HRR_%s_%s_%s'%(j[1],LET[j[2]],LET[j[3]])
        if err: c.violation(nm,'the routine cannot be followed: %s'%err,'hrr_%s_%s_%s.c'%(j[1],LET[j[2]],LET[j[3]])); continue
        bad,nob=r; c.nob+=nob-len(bad); c.nok+=nob-len(bad); c.count('programs'); c.count('horizontal recurrence routine: element is the relation',nob)
        for n,e,k,v in bad[:4]: c.violation(nm+':value','with %d columns, element %s column %s is %s'%(n,e,k,v),nm)
    print('  separate horizontal routines: %d, %.1f s'%(len(jobs),time.time()-t0)); t0=time.time()
    hi=[(4,0,4,0),(5,0,2,0),(4,3,0,0),(0,0,4,2),(6,0,0,0),(2,0,5,0),(0,4,0,2),(0,3,3,0),(1,1,5,0),(8,0,0,0),(0,0,9,0)]
    if c.thorough: hi+=[(4,4,0,0),(5,0,5,0),(6,0,3,0),(3,3,3,0),(0,0,5,5),(0,5,0,4),(4,0,0,4),(4,1,3,0),(7,0,2,0),(10,0,0,0),(2,0,7,0),(0,0,6,3),(5,1,1,1)]
    Q=QLib(L,helpers=False); INL=('-ve','30','-vg','30','-he','30','-hg','30'); GEN=('-ve','0','-vg','0','-he','0','-hg','0')
    for j,r,err,dt in pool([(Q,am,0,o) for am in hi for o in (INL,GEN)],high):
        nm=name_of(j[1]); loc=nm+'.c (generated %s)'%('inline' if j[3] is INL or j[3]==INL else 'with the general routines')
        if err: c.violation(nm,'the routine cannot be followed: %s'%err,loc); continue
        bad,st=r; c.count('programs'); c.units.append(loc); c.nob+=st['n']-len(bad); c.nok+=st['n']-len(bad); c.count('output component equals the integral of that component',st['n'])
        for k,e,l,v in bad[:4]: c.violation(nm+':value','output %d should be the integral over %s, is %s; first untyped intermediates: %s'%(k,e,v,st['sus']),l or loc)
        c.ob(not st['over'] and not st['extra'],nm+':bounds','access outside an object: %s %s'%(st['over'],st['extra'][:3]),loc,'accesses inside objects')
    print('  higher angular momenta: %d, %.1f s'%(2*len(hi),time.time()-t0))
    c.atleast('programs',60)
    c.sample('external/ostei_d_p_p_s: every output slot is Theta(component; m=0) of the pair')
if __name__=='__main__':
    report.main('C09','translation_validation','Each generated routine (the output of the generator, for several option sets) is abstractly interpreted together with the vertical and horizontal recurrence routines it calls. Values are typed: a stored intermediate gets type Theta(a,b,c,d;m) only when it equals, as a polynomial over typed values and geometry, an instance of the Obara-Saika or Head-Gordon-Pople relation, or the prefactor times the Boys function for the base case. Every output slot must have the type of exactly the Cartesian component it stands for.',run)
