"""C15: every primitive contribution reaches the output of exactly its shell quartet, on every vector width."""
import _path, sys, time, os
import build, gen, kern, quartet, report, shapes
from dom import *
from absint import AnalysisError
from quartet import *
from kern import components, nc, up
def expected(C,am,der,ab,cd):
    """component -> list of reference values (twelve alternatives for derivatives)"""
def contributions(C,ab,cd):
    p,q=C.P,C.Q
    return [(i,j) for i in p['real'] if p['own'][i]==ab for j in q['real'] if q['own'][j]==cd]
def dcen(C,e,w,d,ij):
    Ty=C.Ty; s=C.P if w<2 else C.Q; k=ij[0] if w<2 else ij[1]
    r=mul(s['v']['alpha2' if w in(0,2) else 'beta2'][k],Ty.theta(up(e,w,d),0,ij))
    if e[w][d]: r=sub(r,scale(Ty.theta(up(e,w,d,-1),0,ij),e[w][d]))
    return r
def addall(l):
    r={}
    for x in l:
        for m,c in x.t.items():
            v=r.get(m,0)+c
            if v: r[m]=v
            else: r.pop(m,None)
    return Poly(r) if r else 0
def analyse(Q,name,shape):
    am,der=am_name(name); mod=Q.kmods[name]; pn,qn,cp,cq=shape
    C=Q.case(pn,qn,clipP=cp,clipQ=cq); comp=components(am); n=len(comp)*(12 if der else 1)
    I=C.run(Q.mods+[mod],name,outsize=8*n*C.P['clip']*C.Q['clip'])
    flat,oth=C.outputs(); bad=[]; nb=0; Ty=C.Ty; tot=0
    for ab in range(C.P['clip']):
        for cd in range(C.Q['clip']):
            con=contributions(C,ab,cd); base=(ab*C.Q['clip']+cd)*n
            for k,e in enumerate(comp):
                if not der: refs=[(k,[addall([Ty.theta(e,0,ij) for ij in con])])]
                else:
                    refs=[]
                    for d in range(3):
                        cen=[addall([dcen(C,e,w,d,ij) for ij in con]) for w in range(4)]
                        for w in range(4): refs.append((12*k+3*w+d,[cen[w],neg(add(add(*[cen[x] for x in range(4) if x!=w][:2]),[cen[x] for x in range(4) if x!=w][2]))]))
                for o,ref in refs:
                    tot+=1; v=flat.get(8*(base+o))
                    if v is None: nb+=1; bad.append((ab,cd,e,C.where(8*(base+o)),'not written'))
                    elif not any(v==r for r in ref):
                        nb+=1
                        if len(bad)<4: bad.append((ab,cd,e,C.where(8*(base+o)),describe(C,v,ref[0],e)))
    pr=[]
    if len(flat)!=tot or oth: pr.append('writes %d values, the output has %d'%(len(flat),tot))
    if C.over: pr.append('outside an object: %s'%(C.over[:3],))
    if C.ret!=C.P['clip']*C.Q['clip']: pr.append('returns %s for %d shell quartets'%(str(C.ret)[:60],C.P['clip']*C.Q['clip']))
    return bad[:4],nb,tot,pr,I.ninstr
def describe(C,v,ref,e):
    """which primitive contributions are missing, repeated or foreign"""
    g=C.Ty.split(v) if type(v) is Poly else None
    if g is None: return 'value %s'%str(v)[:160]
    w=C.Ty.split(ref) if type(ref) is Poly else {}
    miss=[k[0] for k in w if k not in g]; extra=[k[0] for k in g if k not in w]; diff=[k[0] for k in w if k in g and g[k]!=w[k]]
    return 'missing primitive pairs %s, foreign pairs %s, wrong contribution of pairs %s'%(sorted(set(miss))[:6],sorted(set(extra))[:6],sorted(set(diff))[:6])
def shapes_for(L,rich,ssss=False):
    NS=2*L; S=[]
    a=lambda p,q,cp=None,cq=None: S.append((p,q,cp,cq))
    mix=lambda n,o=0: [(1,2,1,3,L+1,1,1,2)[(k+o)%8] for k in range(n)]
    a([2],mix(3)); a([1,2],mix(NS+1,1)); a(mix(NS+1),[1,2])
    if rich:
        a([1],[1]); a([1],[1]*NS); a([1],[L,L,1]); a([1],[1,L,1]); a([2],[2*L+1,1]); a([1,1],mix(NS,3)); a([1],mix(2*NS+1,2)); a([1,3],mix(4,4),1,2); a([1],mix(NS+2,5),1,NS+1); a(mix(2*NS+1,3),[1]); a([1],[3*L,1,1])
    if ssss: # whole vectors for many quartets: the routine may buffer them before adding
        a([1,1],[L]*9); a([1]*7,[L,1,L]); a([2,1],[L,2*L,L,L+1,L-1 or 1]+[L]*6); a([1]*20,[L,L,1]); a([1]*9,[L]*2); a([1],[L]*17)
    return S
def run(c):
    c.assume+=['exact real arithmetic','enumerated batch shapes: numbers of pairs 1 to 2*NSHELL_SIMD+1 around every batch boundary, primitive counts 1 to 3*SIMD_LEN; the control flow depends on nothing else','screening off here (C14)']
    L=gen.generate('inline',dict(l=1,p=2,ve=20,vg=20,he=20,hg=20,d=1)); t0=time.time()
    G=gen.generate('general',dict(l=1,p=2,ve=0,vg=0,he=0,hg=0,d=1)) if c.thorough else None
    cfg=[('SCALAR',1),('SSE',2),('AVX2',4),('COMMONAVX512',8),('MICAVX512',8)]
    for lib,ln in [(L,'inline')]+([(G,'general')] if G else []):
        for vec,_ in cfg:
            Q=QLib(lib,vec); Q.kmods={}; ks=Q.kernels(0)+Q.kernels(1) if vec!='MICAVX512' or c.thorough else ['ostei_s_s_s_s','ostei_p_s_s_s']; t0=time.time()
            for k in ks: Q.kmods[k]=Q.module(k)
            rich={'ostei_s_s_s_s','ostei_p_s_s_s','ostei_s_s_p_p','ostei_p_p_s_s','ostei_p_s_p_s','ostei_deriv1_s_s_s_s','ostei_deriv1_p_s_s_s'} if not c.thorough else set(ks)
            jobs=[]
            for k in ks:
                am,der=am_name(k)
                for n,s in enumerate(shapes_for(Q.L,k in rich,k=='ostei_s_s_s_s')):
                    w=sum(s[0])*sum(s[1])*(12 if der else 1)
                    for a in am: w*=3**a
                    if w*(1+sum(am)+der)>(2500 if not c.thorough else 30000)*(1 if Q.L<8 else 2): c.count('combinations too large for this tier'); continue
                    jobs.append((w,k,s))
            jobs.sort(reverse=True,key=lambda j:j[0])
            for (w,k,s),r,err,dt in pool(jobs,lambda j:analyse(Q,j[1],j[2])):
                loc='%s/%s.c'%(ln,k); key=k; sh='%s, bra primitives %s, ket primitives %s'%(vec,s[0],s[1])+(', clipped to %s,%s'%s[2:] if s[2] else '')
                if err: c.violation(key,'[%s] cannot be followed: %s'%(sh,err),loc); continue
                bad,nb,tot,pr,ni=r; c.count('routine x shape x back end'); c.count('programs'); c.count('output sums compared',tot); c.nob+=tot-nb; c.nok+=tot-nb; c.count('IR instructions interpreted',ni)
                for ab,cd,e,l,m in bad: c.violation(key+':sum','[%s] quartet (%d,%d) component %s: %s'%(sh,ab,cd,e,m),l or loc)
                c.ob(not pr,key+':extent','[%s] %s'%(sh,'; '.join(pr)),loc,'writes exactly the output, stays inside objects, returns the number of quartets')
            print('  %s %s: %d jobs %.1f s'%(ln,vec,len(jobs),time.time()-t0)); sys.stdout.flush()
    c.atleast('routine x shape x back end',200)
    c.sample('AVX2, ostei_p_s_s_s, bra primitives [1,2], 9 ket pairs with 1,2,1,3,5.. primitives: every output is the sum over exactly its own primitive pairs')
if __name__=='__main__':
    report.main('C15','translation_validation','Generated routines (and the hand-written s_s_s_s) are abstractly interpreted, per vector back end, on batches of several bra and ket pairs with mixed primitive counts placed around every batch and vector boundary. Values are typed per primitive pair as in C09; every output slot must equal the sum over exactly the primitive pairs of its own shell quartet, each once, and nothing else may be written.',run)
