"""Symbolic multi-shell-pairs: what a filled one must contain, how one is laid out in memory, and reading one back."""
import shapes
from dom import *
GEO=['x','y','z','PA_x','PA_y','PA_z','PB_x','PB_y','PB_z']
PRIM=GEO+['alpha','prefac','alpha2','beta2']
PAIR=['AB_x','AB_y','AB_z']
class Sh:
    """a shell: symbols for exponents, coefficients and centre"""
    n=0
    def __init__(self,name,nprim,am=0,mem=None,lay=None,reg=None,base=0,xyz=None):
        self.name=name; self.nprim=nprim; self.am=am
        self.al=[shapes.pos('%s.a%d'%(name,i)) for i in range(nprim)]; self.co=[sym('%s.c%d'%(name,i)) for i in range(nprim)]
        self.xyz=xyz or [sym('%s.%s'%(name,d)) for d in 'xyz']; self.ra=Region(name+'.alpha','in'); self.rc=Region(name+'.coef','in')
    def put(self,mem,lay,reg,base=0):
        """store the structure; the same storage identity every time"""
        for f,v in (('am',self.am),('nprim',self.nprim),('x',self.xyz[0]),('y',self.xyz[1]),('z',self.xyz[2]),('alpha',Ptr(self.ra,0)),('coef',Ptr(self.rc,0)),('ptr',Ptr(self.ra,0)),('memsize',16*self.nprim)):
            shapes.setf(mem,reg,lay,base,f,v)
        if self.ra not in mem.r: shapes.arr(mem,self.ra,self.al); shapes.arr(mem,self.rc,self.co)
def same(A,B): return A is B
C52=None
def two_pi_52():
    """sqrt(2) pi^(5/4): the pair prefactor's constant"""
    return mul(sqrt_(2),rpow(PI(),Fraction(5,4)))
def entries(A,B):
    """the primitive pairs of a shell pair, each a dict of field -> value"""
    out=[]; D=[sub(a,b) for a,b in zip(A.xyz,B.xyz)]; r2=add(add(mul(D[0],D[0]),mul(D[1],D[1])),mul(D[2],D[2]))
    for i in range(A.nprim):
        for j in range(i+1 if same(A,B) else B.nprim):
            a,b=A.al[i],B.al[j]; p=add(a,b); ip=inv(p); e={'alpha':p}
            f=mul(mul(A.co[i],B.co[j]),mul(two_pi_52(),ip))
            f=mul(f,exp_(neg(mul(mul(mul(a,b),ip),r2))))
            off=same(A,B) and i!=j
            e['prefac']=scale(f,2) if off else f
            for d,x in enumerate('xyz'):
                P=mul(add(mul(a,A.xyz[d]),mul(b,B.xyz[d])),ip)
                e[x]=P; e['PA_'+x]=sub(P,A.xyz[d]); e['PB_'+x]=sub(P,B.xyz[d])
            e['alpha2'],e['beta2']=(p,p) if off else (scale(a,2),scale(b,2))
            out.append(e)
    return out
def rd(mem,I,p,off,size,ty):
    if type(p) is not Ptr: return None
    rs=mem.r.get(p.r); o=add(p.o,off)
    if type(o) is not int or rs is None: return None
    c=rs.g.get(0,{}).get(o)
    if c is None or c[0]!=size: return None
    return c[1]
def getf(mem,reg,lay,f,base=0):
    o,s=lay[f]; rs=mem.r.get(reg)
    c=rs.g.get(0,{}).get(base+o) if rs else None
    return c[1] if c and c[0]==s else None
class Plan:
    """the shape of a batch: pairs -> offsets, padding, totals"""
    def __init__(self,nps,L):
        self.L=L; self.NS=2*L; self.nps=nps; self.start=[]; self.pad=[]; o=0
        for k,n in enumerate(nps):
            self.start.append(o); o+=n
            if (k+1)%self.NS==0 or k+1==len(nps):
                r=(o+L-1)//L*L; self.pad+=list(range(o,r)); o=r
        self.total=o
