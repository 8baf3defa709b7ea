"""C10: first-derivative routines return the gradient for all four centres."""
import _path, sys, time, os
import build, gen, kern, quartet, report, modular, itertools
from dom import *
from quartet import *
from kern import components, nc, up
def centre(Ty,C,e,w,d):
    """2 alpha Theta(e+1) - n Theta(e-1)"""
    s=C.P if w<2 else C.Q; z=2*[0]
    r=mul(s['v']['alpha2' if w in(0,2) else 'beta2'][0],Ty.theta(up(e,w,d),0,(0,0)))
    if e[w][d]: r=sub(r,scale(Ty.theta(up(e,w,d,-1),0,(0,0)),e[w][d]))
    return r
def analyse(Q,name):
    am,_=am_name(name); mod=Q.module(name)
    if other_kernel(mod,name): return None,{}
    C=Q.case([1],[1],simple=True); I=C.run(Q.mods+[mod],name); Ty=C.Ty
    flat,oth=C.outputs(); bad=[]; comp=components(am); miss=set()
    for k,e in enumerate(comp):
        for d in range(3):
            ref=[centre(Ty,C,e,w,d) for w in range(4)]
            for w in range(4):
                o=8*(12*k+3*w+d); v=flat.get(o)
                if v is None: bad.append((k,e,w,d,C.where(o),'not written')); continue
                if v==ref[w]: continue
                rest=neg(add(add(*[ref[x] for x in range(4) if x!=w][:2]),[ref[x] for x in range(4) if x!=w][2]))
                if v==rest: miss.add(w); continue
                bad.append((k,e,w,d,C.where(o),str(v)[:300]))
    n=12*len(comp)
    return bad,dict(n=n,miss=sorted(miss),extra=[o for o in flat if o>=8*n],over=C.over[:3],oth=len(oth),ret=C.ret,instr=I.ninstr,sus=C.suspects())
def libs(c):
    q=dict(external=gen.EXTERNAL,inline=gen.INLINE,general=gen.GENERAL,mix=dict(l=2,p=1,ve=2,vg=6,he=2,hg=4,d=1),np=dict(l=2,p=3,ve=3,vg=20,he=0,hg=20,d=1))
    if c.thorough: q.update(mixgv=dict(l=2,p=0,ve=0,vg=20,he=20,hg=0,d=1),i3=dict(l=3,p=0,ve=20,vg=20,he=20,hg=20,d=1),e3=dict(l=3,p=3,ve=0,vg=20,he=0,hg=20,d=1))
    return q
def cost(n):
    am,_=am_name(n); L=sum(am); x=1
    for a in am: x*=nc(a)
    return x*(L+3)**3
def run(c):
    c.assume+=['exact real arithmetic','one primitive per pair here; sums over primitives and batches are the subject of C15','generated with the Psi4 ordering','translational invariance makes minus the sum of the other three centres the derivative of the fourth']
    limit=1.2e6 if c.thorough else 1.5e5
    for nm,opts in libs(c).items():
        L=gen.generate(nm,opts); Q=QLib(L); ks=Q.kernels(1)
        lim=limit if nm!='general' or c.thorough else 3e4  # the larger ones of this library are followed step by step below
        jobs=sorted([k for k in ks if cost(k)<=lim],key=cost,reverse=True); t0=time.time()
        if nm!='general': c.count('routines too large for this tier',len(ks)-len(jobs))
        else: GK,GQ=ks,Q
        for n,r,err,dt in pool(jobs,lambda n:analyse(Q,n)):
            loc='%s/%s.c'%(nm,n); key=n
            if err: c.violation(key,'the routine cannot be followed: %s'%err,loc); continue
            bad,st=r
            if bad is None: c.count('permutation wrappers (C11)'); continue
            c.count('programs'); c.count('IR instructions interpreted',st['instr'])
            if len(c.units)<300: c.units.append('%s:%s'%(nm,n))
            c.nob+=st['n']-len(bad); c.nok+=st['n']-len(bad); c.count('output component equals the derivative of that component',st['n'])
            for k,e,w,d,l,v in bad[:6]: c.violation(key+':value','[%s] output %d should be the derivative with respect to %s of centre %s of the integral over %s, is %s; first untyped intermediates: %s'%(nm,12*k+3*w+d,'xyz'[d],'ABCD'[w],e,v,st['sus']),l or loc)
            c.ob(len(st['miss'])<=1,key+':invariance','centres %s are all formed from the other three'%st['miss'],loc,'at most one centre by translational invariance')
            c.ob(not st['extra'] and not st['oth'],key+':extent','writes outside the output block: %s'%st['extra'][:4],loc,'writes only the output block')
            c.ob(not st['over'],key+':bounds','access outside an object: %s'%st['over'],loc,'accesses inside objects')
            c.ob(st['ret']==1,key+':count','returns %s for one shell quartet'%str(st['ret'])[:80],loc,'returns the number of shell quartets')
        print('  %s: %d of %d routines %.1f s'%(nm,len(jobs),len(ks),time.time()-t0)); sys.stdout.flush()
    what='output component equals the derivative of that component'
    modular.run(c,[(GQ,k) for k in GK],what,'general')
    hi=[am for am in itertools.product(range(3 if c.thorough else 2),repeat=4) if sum(am)]+[(0,2,1,0),(1,2,0,2),(2,0,1,2),(0,3,0,1),(1,3,2,0)]
    hi+=[(4,0,4,0),(4,0,0,0),(4,1,1,0),(0,4,0,2),(1,4,1,0),(4,4,0,0),(5,0,1,0),(0,0,5,1),(4,2,0,3)]
    if c.thorough: hi+=[(i,j,k,l) for i in range(5) for j in range(i+1) for k in range(i+1) for l in range(k+1) if i==4]+[(5,0,5,0),(5,5,0,0),(0,5,0,5),(6,0,3,0),(7,0,0,0),(5,2,5,1)]
    modular.run(c,[(GQ,am,1) for am in dict.fromkeys(hi)],what,'emitted with the general steps')
    c.atleast('programs',60)
    c.sample('ostei_deriv1_p_s_p_s: dI/dA_x = alpha2 Theta(a+1x) - n Theta(a-1x); one centre is minus the sum of the other three')
if __name__=='__main__':
    report.main('C10','translation_validation','Each generated first-derivative routine is abstractly interpreted together with the recurrence routines it calls, with the typing of C09 carried through exponent-weighted sums. For every component each of the twelve outputs must equal 2 alpha Theta(+1) - n Theta(-1) for its centre and direction, or minus the sum of the other three centres.',run)
