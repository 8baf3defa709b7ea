"""Build the code generator from the working tree and generate libraries in scratch directories (the generator is the
compiler under analysis; what it emits is analysed, never run)."""
import os, subprocess, glob, re, shutil
from concurrent.futures import ThreadPoolExecutor
import build
from build import BuildError, REPO
NP=max(2,min(8,os.cpu_count() or 2))
PROGS=('ostei_generator','ostei_deriv1_generator','ostei_hrr_generator','ostei_vrr_generator')
_bin={}
def _cmake_sources(path,name):
    t=open(path).read()
    m=re.search(r'add_library\(\s*%s\s+OBJECT([^)]*)\)'%name,t)
    return re.findall(r'[\w/]+\.cpp',m.group(1)) if m else []
def generator(ordering='Psi4',opt='-O1'):
    if ordering in _bin: return _bin[ordering]
    g=REPO+'/generator'; d=build.tmp()+'/gen_'+ordering; os.makedirs(d,exist_ok=True)
    com=_cmake_sources(g+'/CMakeLists.txt','generator_common')+['Ordering_%s.cpp'%ordering]
    ost=_cmake_sources(g+'/ostei/CMakeLists.txt','ostei_generator_common')
    src={f:g+'/'+f for f in com}; src.update({f:g+'/ostei/'+f for f in ost}); src.update({p+'.cpp':g+'/ostei/'+p+'.cpp' for p in PROGS})
    def cc(k):
        build.sh(['g++','-std=c++11',opt,'-w','-I',REPO,'-c',src[k],'-o',d+'/'+k+'.o'])
    with ThreadPoolExecutor(NP) as ex: list(ex.map(cc,sorted(src,key=lambda k:-os.path.getsize(src[k]))))
    common=[d+'/'+k+'.o' for k in com+ost]
    def ld(p): build.sh(['g++','-o',d+'/'+p,d+'/'+p+'.cpp.o']+common)
    with ThreadPoolExecutor(NP) as ex: list(ex.map(ld,PROGS))
    _bin[ordering]=d
    return d
class Lib:
    """a generated library"""
    def __init__(self,path,opts,log,rc):
        self.path=path; self.opts=opts; self.log=log; self.rc=rc; self.gen=path+'/simint/ostei/gen'; self._cfg={}
    def files(self,prefix=''): return sorted(os.path.basename(f) for f in glob.glob(self.gen+'/'+prefix+'*.c'))
    def config(self,vector='SCALAR',extra=(),maxam=None,maxder=None):
        """headers cmake would configure (vector back end, built maxima)"""
        maxam=self.opts['l'] if maxam is None else maxam; maxder=self.opts.get('d',0) if maxder is None else maxder
        k=(vector,tuple(extra),maxam,maxder)
        if k in self._cfg: return self._cfg[k]
        d=self.path+'/_cfg_%s_%s_%d_%d'%(vector,'_'.join(extra),maxam,maxder)
        build.config_headers(vector,extra,d=d); os.makedirs(d+'/simint/ostei',exist_ok=True)
        t=open(self.path+'/simint/ostei/ostei_config.h.in').read().replace('@SIMINT_MAXAM@',str(maxam)).replace('@SIMINT_MAXDER@',str(maxder))
        open(d+'/simint/ostei/ostei_config.h','w').write(t)
        self._cfg[k]=d
        return d
    def incs(self,**k): return [self.config(**k),self.path]
def generate(name,opts,ordering='Psi4',jobs=None,check=True):
    """opts: dict of create.py options (l,p,ve,vg,he,hg,d)"""
    b=generator(ordering); out=build.tmp()+'/lib_'+name
    cmd=['python3','-W','ignore',REPO+'/create.py','-n',str(jobs or NP),'-g',b+'/']
    # create.py looks for the programs inside the directory given
    for k,v in opts.items(): cmd+=['-'+k,str(v)]
    cmd+=[out]
    env=dict(os.environ,PYTHONHASHSEED='0',PYTHONDONTWRITEBYTECODE='1')
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,timeout=800)
    if check and p.returncode!=0: raise BuildError('create.py %s failed: %s'%(opts,p.stdout[-1500:]))
    return Lib(out,opts,p.stdout,p.returncode)
GENERAL=dict(l=3,p=3,d=1)
EXTERNAL=dict(l=2,p=2,ve=0,vg=5,he=0,hg=20,d=1)
INLINE=dict(l=2,p=2,ve=20,vg=20,he=20,hg=20,d=1)
