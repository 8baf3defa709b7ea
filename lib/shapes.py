"""Layout of the library's structures (asked from the compiler) and symbolic instances of them."""
import os
import build, llir, dom
from dom import Region, Ptr, sym, POS, NONNEG
SHELL=['am','nprim','x','y','z','alpha','coef','memsize','ptr']
MSP=['am1','am2','nprim','nshell12','nshell12_clip','nprim12','AB_x','AB_y','AB_z','x','y','z','PA_x','PA_y','PA_z','PB_x','PB_y','PB_z','alpha','alpha2','beta2','prefac','screen','screen_max','memsize','ptr']
_cache={}
def layout(struct,fields,incs,header='simint/shell/shell.h',defs=()):
    k=(struct,tuple(fields),tuple(incs),tuple(defs))
    if k in _cache: return _cache[k]
    f=os.path.join(build.tmp(),'lay_%s_%d.c'%(struct,len(_cache)))
    open(f,'w').write('#include <stddef.h>\n#include "%s"\nconst long L[]={sizeof(struct %s),%s};\n'%(header,struct,','.join('offsetof(struct %s,%s),sizeof(((struct %s*)0)->%s)'%(struct,x,struct,x) for x in fields)))
    m=build.module(f,incs,defs)
    v=llir.global_init(m.globals['L'])
    a=[x[1][1] for x in v[1]]
    r={'sizeof':a[0]}
    for i,x in enumerate(fields): r[x]=(a[1+2*i],a[2+2*i])
    _cache[k]=r
    return r
def pos(name):
    p=sym(name); POS.add(next(iter(p.t))[0][0]); return p
def setf(mem,reg,lay,base,field,val):
    o,s=lay[field]; mem.wr(reg).g.setdefault(0,{})[base+o]=(s,val)
def arr(mem,reg,vals,size=8,base=0):
    g=mem.wr(reg).g.setdefault(0,{})
    for i,v in enumerate(vals): g[base+i*size]=(size,v)
def shell(mem,lay,name,am,nprim,xyz,alpha=None,coef=None,reg=None,base=0,symbolic=None):
    """fill one struct simint_shell; alpha/coef: lists of values, or None for unconstrained arrays"""
    if reg is None: reg=Region(name,'in')
    setf(mem,reg,lay,base,'am',am); setf(mem,reg,lay,base,'nprim',nprim)
    for f,v in zip('xyz',xyz): setf(mem,reg,lay,base,f,v)
    ra=Region(name+'.alpha','in'); rc=Region(name+'.coef','in')
    setf(mem,reg,lay,base,'alpha',Ptr(ra,0)); setf(mem,reg,lay,base,'coef',Ptr(rc,0))
    if alpha is not None: arr(mem,ra,alpha)
    if coef is not None: arr(mem,rc,coef)
    setf(mem,reg,lay,base,'ptr',Ptr(ra,0))
    return reg,ra,rc
