"""Reference closed forms over Cartesian Gaussians, as values of the algebraic domain.
None of these is a transcription of the analysed code: overlap by binomial expansion and Gaussian moments,
kinetic energy by differentiating the second function, nuclear attraction by Hermite expansion."""
from fractions import Fraction
from math import comb, factorial
from dom import add,mul,sub,neg,scale,ipow,div,inv,exp_,sqrt_,PI,func
def canon(am): return [(x,y,am-x-y) for x in range(am,-1,-1) for y in range(am-x,-1,-1)]
def dfact(n):
    r=1
    while n>1: r*=n; n-=2
    return r
class One:
    """one direction of a pair of Gaussians: exponents a,b, p=a+b, displacements PA, PB"""
    def __init__(self,PA,PB,p,b=None):
        self.PA=PA; self.PB=PB; self.p=p; self.b=b; self.c={}; self.pa=[1]; self.pb=[1]; self.ip=inv(p); self.e={}
    def _pw(self,l,x,n):
        while len(l)<=n: l.append(mul(l[-1],x))
        return l[n]
    def s(self,i,j):
        """moment: sum_k coeff_{2k} (2k-1)!!/(2p)^k, without sqrt(pi/p) exp"""
        if i<0 or j<0: return 0
        r=self.c.get((i,j))
        if r is None:
            r=0
            for u in range(i+1):
                for v in range(j+1):
                    n=(i-u)+(j-v)
                    if n&1: continue
                    t=scale(mul(self._pw(self.pa,self.PA,u),self._pw(self.pb,self.PB,v)),comb(i,u)*comb(j,v)*dfact(n-1))
                    r=add(r,mul(t,ipow(scale(self.ip,Fraction(1,2)),n//2)) if n else t)
            self.c[i,j]=r
        return r
    def t(self,i,j):
        """-1/2 d2/dx2 on the second function"""
        b=self.b; r=scale(mul(b,self.s(i,j)),2*j+1)
        r=sub(r,scale(mul(mul(b,b),self.s(i,j+2)),2))
        if j>1: r=sub(r,scale(self.s(i,j-2),Fraction(j*(j-1),2)))
        return r
    def herm(self,i,j,t):
        """Hermite expansion coefficient E_t^{ij} (without the pair exponential)"""
        if t<0 or t>i+j: return 0
        k=(i,j,t)
        r=self.e.get(k)
        if r is None:
            # E_t^{ij}: coefficient of Lambda_t in x_A^i x_B^j; derived from moments: x_P^n = sum_t n!/(t! k! 2^{2k}..) He
            # (x-A)^i (x-B)^j = sum_n f_n x_P^n ;  x_P^n Lambda_0 = sum_t  n!/( t! ((n-t)/2)! ) (4p)^{-(n-t)/2} (2p)^{-t} ... Lambda_t
            r=0
            for u in range(i+1):
                for v in range(j+1):
                    n=(i-u)+(j-v)
                    if n<t or (n-t)&1: continue
                    h=(n-t)//2
                    # x^n exp(-p x^2) = sum_t n!/(t! h!) (2p)^{-t} (4p)^{-h} Lambda_t
                    co=Fraction(comb(i,u)*comb(j,v)*factorial(n),factorial(t)*factorial(h)*2**t*4**h)
                    r=add(r,scale(mul(mul(self._pw(self.pa,self.PA,u),self._pw(self.pb,self.PB,v)),ipow(self.ip,t+h)) if t+h else mul(self._pw(self.pa,self.PA,u),self._pw(self.pb,self.PB,v)),co))
            self.e[k]=r
        return r
