"""Reader for LLVM-18 textual IR (the resolved, typed program of a C translation unit).

The analyses in /verif work on the IR clang produces for /repo's sources (-O0, then SROA and loop
canonicalisation), not on source text: names, macros, helper functions and layout are resolved.
"""
import re, struct
from fractions import Fraction

class LLError(Exception):
    pass

# ------------------------------------------------------------------ types
# int: ('i',bits)  float: ('f',bits)  ptr: ('p',)  void: ('v',)  array: ('a',n,t)  struct: ('s',name|None,[t],packed)
# vector: ('x',n,t)   scalable vector: ('vx',n,t)
VOID=('v',); PTR=('p',); DBL=('f',64)
_tcache={}

def parse_type(s,i,mod):
    while s[i]==' ': i+=1
    c=s[i]
    if c=='i' and s[i+1].isdigit():
        j=i+1
        while j<len(s) and s[j].isdigit(): j+=1
        return ('i',int(s[i+1:j])),j
    if s.startswith('ptr',i):
        j=i+3
        if s.startswith(' addrspace(',j): j=s.index(')',j)+1
        return PTR,j
    if s.startswith('double',i): return DBL,i+6
    if s.startswith('float',i): return ('f',32),i+5
    if s.startswith('half',i): return ('f',16),i+4
    if s.startswith('x86_fp80',i): return ('f',80),i+8
    if s.startswith('void',i): return VOID,i+4
    if s.startswith('metadata',i): return ('m',),i+8
    if s.startswith('label',i): return ('l',),i+5
    if s.startswith('target(',i):
        j=s.index(')',i)+1
        return ('t',s[i:j]),j
    if c=='[':
        m=re.compile(r'\[(\d+) x ').match(s,i)
        t,j=parse_type(s,m.end(),mod)
        assert s[j]==']'
        return ('a',int(m.group(1)),t),j+1
    if c=='<':
        m=re.compile(r'<(vscale x )?(\d+) x ').match(s,i)
        if m:
            t,j=parse_type(s,m.end(),mod)
            assert s[j]=='>'
            return ('vx' if m.group(1) else 'x',int(m.group(2)),t),j+1
        if s[i+1]=='{':
            t,j=parse_type(s,i+1,mod)
            return ('s',None,t[2],True),j+1
    if c=='{':
        j=i+1; ts=[]
        while s[j]==' ': j+=1
        while s[j]!='}':
            t,j=parse_type(s,j,mod); ts.append(t)
            while s[j] in ' ,': j+=1
        return ('s',None,tuple(ts),False),j+1
    if c=='%':
        m=re.compile(r'%("[^"]*"|[\w.$-]+)').match(s,i)
        return ('n',m.group(0)),m.end()
    raise LLError('type? '+s[i:i+60])

class Module:
    def __init__(self):
        self.structs={}; self.globals={}; self.functions={}; self.md={}; self.decls={}; self.path=None
    def resolve(self,t):
        while t[0]=='n':
            t=self.structs[t[1]]
        return t
    def sizeof(self,t):
        k=t[0]
        if k=='i':
            b=(t[1]+7)//8
            p=1
            while p<b: p*=2
            return p
        if k=='f': return {16:2,32:4,64:8,80:16}[t[1]]
        if k=='p': return 8
        if k=='a': return t[1]*self.sizeof(t[2])
        if k=='x':
            n=t[1]*self.sizeof(t[2])
            if t[2]==('i',1): n=(t[1]+7)//8
            return n
        if k=='n': return self.sizeof(self.resolve(t))
        if k=='s': return self.layout(t)[0]
        raise LLError('sizeof %r'%(t,))
    def alignof(self,t):
        k=t[0]
        if k in 'ifp': return min(self.sizeof(t),16)
        if k=='a': return self.alignof(t[2])
        if k=='x': return self.sizeof(t)
        if k=='n': return self.alignof(self.resolve(t))
        if k=='s':
            if t[3]: return 1
            return max([self.alignof(x) for x in t[2]] or [1])
        raise LLError('alignof %r'%(t,))
    def layout(self,t):
        t=self.resolve(t)
        key=t
        c=self.__dict__.setdefault('_lay',{})
        if key in c: return c[key]
        off=0; offs=[]; al=1
        for x in t[2]:
            a=1 if t[3] else self.alignof(x)
            al=max(al,a)
            off=(off+a-1)//a*a
            offs.append(off); off+=self.sizeof(x)
        off=(off+al-1)//al*al
        c[key]=(off,offs)
        return c[key]
    # ---- debug locations
    def loc(self,dbg):
        """(file,line) of a !dbg id"""
        if dbg is None: return None
        s=self.md.get(dbg)
        if s is None: return None
        m=re.search(r'line: (\d+)',s); line=int(m.group(1)) if m else 0
        f=None; cur=s; n=0
        while n<50:
            n+=1
            m=re.search(r'file: !(\d+)',cur)
            if m:
                fm=re.search(r'filename: "([^"]*)"',self.md.get(m.group(1),''))
                f=fm.group(1) if fm else None
                break
            m=re.search(r'scope: !(\d+)',cur)
            if not m: break
            cur=self.md.get(m.group(1),'')
        return (f,line)

class Global:
    __slots__=('name','type','init','const','linkage','raw','mod')

class Function:
    def __init__(self,name):
        self.name=name; self.params=[]; self.blocks={}; self.order=[]; self.ret=None; self.internal=False; self.mod=None; self.dbg=None
        self.vararg=False
    def __repr__(self): return '<fn %s>'%self.name

class Instr:
    __slots__=('op','dst','ty','a','x','dbg','fn')
    # op: opcode, ty: result/primary type, a: operands, x: extra
    def __repr__(self): return '%s=%s %s %s %s'%(self.dst,self.op,self.ty,self.a,self.x)

# constants: numbers are python int / float wrapped:  ('ci',v) ('cf',float) ('cnull',) ('cundef',type) ('czero',type)
# ('cg',name)  ('cv',[..]) ('cagg',[..]) ('cgep',type,base,[idx]) ('ccast',op,v,ty)  registers are plain str

_align=re.compile(r', align (\d+)')
def _al(s,k):
    m=_align.search(s,k)
    return int(m.group(1)) if m else None
_reg=re.compile(r'%("[^"]*"|[\w.$-]+)')
_glob=re.compile(r'@("[^"]*"|[\w.$-]+)')
_num=re.compile(r'-?\d+(\.\d+)?(e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+')

def parse_value(s,i,ty,mod):
    while s[i]==' ': i+=1
    c=s[i]
    if c=='%':
        m=_reg.match(s,i); return m.group(0),m.end()
    if c=='@':
        m=_glob.match(s,i); return ('cg',m.group(1).strip('"')),m.end()
    if c.isdigit() or c=='-':
        m=re.compile(r'0x([KLMHR]?)([0-9A-Fa-f]+)').match(s,i)
        if m:
            if m.group(1): return ('cf',float('nan')),m.end()
            v=struct.unpack('>d',bytes.fromhex(m.group(2).rjust(16,'0')))[0]
            return ('cf',v),m.end()
        m=_num.match(s,i)
        t=m.group(0)
        if ty[0]=='f': return ('cf',float(t)),m.end()
        return ('ci',int(t)),m.end()
    for w,v in (('true',('ci',1)),('false',('ci',0)),('null',('cnull',)),('none',('cnull',))):
        if s.startswith(w,i): return v,i+len(w)
    if s.startswith('undef',i): return ('cundef',ty),i+5
    if s.startswith('poison',i): return ('cundef',ty),i+6
    if s.startswith('zeroinitializer',i): return ('czero',ty),i+15
    if c=='<' or c=='[' or c=='{':
        close={'<':'>','[':']','{':'}'}[c]
        j=i+1; vals=[]
        if c=='<' and s[j]=='{': # packed struct
            v,j=parse_value(s,j,ty,mod); return v,j+1
        while s[j]==' ': j+=1
        while s[j]!=close:
            t,j=parse_type(s,j,mod)
            v,j=parse_value(s,j,t,mod)
            vals.append((t,v))
            while s[j] in ' ,': j+=1
        return (('cv' if c=='<' else 'cagg'),vals),j+1
    if c=='c' and s[i+1]=='"':
        j=s.index('"',i+2)
        raw=s[i+2:j]
        b=[];k=0
        while k<len(raw):
            if raw[k]=='\\': b.append(int(raw[k+1:k+3],16)); k+=3
            else: b.append(ord(raw[k])); k+=1
        return ('cagg',[(('i',8),('ci',x)) for x in b]),j+1
    m=re.compile(r'getelementptr (inbounds )?(inrange\([^)]*\) )?\(').match(s,i)
    if m:
        j=m.end()
        t,j=parse_type(s,j,mod)
        ops=[]
        while s[j] in ' ,':
            j+=1
            if s[j]==' ': j+=1
            if s.startswith('inrange ',j): j+=8
            tt,j=parse_type(s,j,mod)
            v,j=parse_value(s,j,tt,mod)
            ops.append((tt,v))
        assert s[j]==')'
        return ('cgep',t,ops[0][1],[o[1] for o in ops[1:]]),j+1
    m=re.compile(r'(bitcast|ptrtoint|inttoptr|trunc|addrspacecast) \(').match(s,i)
    if m:
        t,j=parse_type(s,m.end(),mod); v,j=parse_value(s,j,t,mod)
        assert s.startswith(' to ',j); t2,j=parse_type(s,j+4,mod)
        return ('ccast',m.group(1),v,t2),j+1
    m=re.compile(r'splat \(').match(s,i)
    if m:
        t,j=parse_type(s,m.end(),mod); v,j=parse_value(s,j,t,mod)
        n=ty[1]
        return ('cv',[(t,v)]*n),j+1
    m=re.compile(r'shufflevector \(').match(s,i)
    if m:
        # constant splat expression of scalable vectors
        depth=0;j=m.end()-1
        while True:
            if s[j]=='(' : depth+=1
            if s[j]==')':
                depth-=1
                if depth==0: break
            j+=1
        inner=s[m.end():j]
        mm=re.search(r'insertelement \(<[^>]*> (?:poison|undef), (\w+) ([^,]+), i64 0\)',inner)
        if mm:
            t,_=parse_type(mm.group(1)+' ',0,mod); v,_=parse_value(mm.group(2)+' ',0,t,mod)
            return ('csplat',t,v),j+1
        return ('craw',s[i:j+1]),j+1
    if s.startswith('asm ',i) or s.startswith('blockaddress',i):
        return ('craw',s[i:]),len(s)
    raise LLError('value? '+s[i:i+80])

_attr_re=re.compile(r'(?:noundef|nonnull|signext|zeroext|inreg|noalias|nocapture|readonly|readnone|writeonly|returned|immarg|nofree|nest|swiftself|allocptr|'
                    r'align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\([^()]*(?:\([^()]*\))?[^()]*\)|sret\([^()]*\)|'
                    r'byref\([^()]*\)|elementtype\([^()]*\)|range\([^()]*\)|nofpclass\([^()]*\)|captures\([^()]*\)|allocalign|writable|dead_on_unwind)\b|\)')
def skip_attrs(s,i):
    byval=None
    while True:
        while i<len(s) and s[i]==' ': i+=1
        m=_pattr.match(s,i)
        if not m: return i,byval
        w=m.group(0)
        if w.startswith('byval('): byval=w[6:-1]
        i=m.end()
_pattr=re.compile(r'(?:noundef|nonnull|signext|zeroext|inreg|noalias|nocapture|readonly|readnone|writeonly|returned|immarg|nofree|nest|swiftself|allocptr|allocalign|writable|dead_on_unwind)(?=[ ,)])'
   r'|align \d+|(?:dereferenceable|dereferenceable_or_null|byval|sret|byref|elementtype|range|nofpclass|captures)\((?:[^()]|\([^()]*\))*\)')

BINOPS={'add','sub','mul','sdiv','udiv','srem','urem','shl','ashr','lshr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CASTS={'sext','zext','trunc','fpext','fptrunc','fptosi','fptoui','sitofp','uitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}
_flags=re.compile(r'(?:(?:nsw|nuw|exact|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|disjoint|nneg|inbounds|volatile|atomic|samesign) )+')
def skipflags(s,i):
    while s[i]==' ': i+=1
    m=_flags.match(s,i)
    return m.end() if m else i

_dbg=re.compile(r', !dbg !(\d+)')
_assign=re.compile(r'  (%(?:"[^"]*"|[\w.$-]+)) = ')

def parse_operands(s,i,mod,n=None):
    """list of 'type value' separated by commas"""
    out=[]
    while i<len(s):
        while i<len(s) and s[i] in ' ,': i+=1
        if i>=len(s): break
        if s.startswith('align ',i) or s[i]=='!' : break
        t,i=parse_type(s,i,mod)
        v,i=parse_value(s,i,t,mod)
        out.append((t,v))
        if n and len(out)>=n: break
    return out,i

def parse_call(s,i,mod,ins):
    # after 'call '
    m=re.compile(r'(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+').match(s,i)
    if m: i=m.end()
    m=re.compile(r'(?:fastcc|coldcc|ccc|aarch64_vector_pcs|aarch64_sve_vector_pcs|cc ?\d+) ').match(s,i)
    if m: i=m.end()
    i,_=skip_attrs(s,i)
    t,i=parse_type(s,i,mod)
    while s[i]==' ': i+=1
    if s[i]=='(':  # function type with varargs
        d=0
        while True:
            if s[i]=='(':d+=1
            if s[i]==')':
                d-=1
                if d==0: break
            i+=1
        i+=1
    while s[i]==' ': i+=1
    if s.startswith('asm',i):
        # inline asm: take text up to arg list
        m=re.compile(r'asm (?:sideeffect |alignstack |inteldialect |unwind )*"((?:[^"\\]|\\.)*)", "((?:[^"\\]|\\.)*)"').match(s,i)
        callee=('asm',m.group(1),m.group(2)); i=m.end()
    else:
        callee,i=parse_value(s,i,PTR,mod)
    assert s[i]=='(',s
    i+=1
    args=[]
    while s[i]!=')':
        while s[i] in ' ,': i+=1
        t2,i=parse_type(s,i,mod)
        if t2==('m',):
            # metadata argument: skip it
            d=0
            while not (d==0 and s[i] in ',)'):
                if s[i]=='(':d+=1
                if s[i]==')':d-=1
                i+=1
            args.append((t2,None)); continue
        i,bv=skip_attrs(s,i)
        v,i=parse_value(s,i,t2,mod)
        args.append((t2,v))
    ins.op='call'; ins.ty=t; ins.x=callee[1] if (type(callee) is tuple and callee[0]=='cg') else callee
    ins.a=args
    return ins

def parse_instr(line,mod,fn):
    ins=Instr(); ins.dst=None; ins.dbg=None; ins.x=None; ins.a=(); ins.fn=fn
    m=_dbg.search(line)
    if m:
        ins.dbg=m.group(1); line=line[:m.start()]
    m=_assign.match(line)
    i=2
    if m:
        ins.dst=m.group(1); i=m.end()
    j=line.find(' ',i)
    if j<0: j=len(line)
    op=line[i:j]
    ins.op=op
    s=line
    if op in BINOPS:
        k=skipflags(s,j)
        t,k=parse_type(s,k,mod)
        a,k=parse_value(s,k,t,mod)
        b,k=parse_value(s,k+1,t,mod)
        ins.ty=t; ins.a=(a,b); return ins
    if op=='load':
        k=skipflags(s,j)
        t,k=parse_type(s,k,mod); k=s.index('ptr',k)
        t2,k=parse_type(s,k,mod); v,k=parse_value(s,k,t2,mod)
        ins.ty=t; ins.a=(v,); ins.x=_al(s,k); return ins
    if op=='store':
        k=skipflags(s,j)
        t,k=parse_type(s,k,mod); v,k=parse_value(s,k,t,mod)
        k+=1
        t2,k=parse_type(s,k,mod); p,k=parse_value(s,k,t2,mod)
        ins.ty=t; ins.a=(v,p); ins.x=_al(s,k); return ins
    if op=='getelementptr':
        k=skipflags(s,j)
        t,k=parse_type(s,k,mod)
        ops,k=parse_operands(s,k,mod)
        ins.ty=t; ins.a=tuple(v for _,v in ops); return ins
    if op in CASTS:
        k=skipflags(s,j)
        t,k=parse_type(s,k,mod); v,k=parse_value(s,k,t,mod)
        k=s.index(' to ',k)+4
        t2,k=parse_type(s,k,mod)
        ins.ty=t2; ins.x=t; ins.a=(v,); return ins
    if op in ('icmp','fcmp'):
        k=skipflags(s,j)
        m=re.compile(r'(\w+) ').match(s,k)
        ins.x=m.group(1); t,k=parse_type(s,m.end(),mod)
        a,k=parse_value(s,k,t,mod); b,k=parse_value(s,k+1,t,mod)
        ins.ty=t; ins.a=(a,b); return ins
    if op=='br':
        if s.startswith('label ',j+1):
            ins.a=(_reg.search(s,j).group(0),)
        else:
            c,k=parse_value(s,j+4,('i',1),mod)
            labs=re.findall(r'label (%(?:"[^"]*"|[\w.$-]+))',s[k:])
            ins.x=c; ins.a=tuple(labs)
        return ins
    if op=='phi':
        k=skipflags(s,j)
        t,k=parse_type(s,k,mod); ins.ty=t
        inc=[]
        while True:
            k=s.find('[',k)
            if k<0: break
            v,k=parse_value(s,k+1,t,mod)
            m=_reg.search(s,k); inc.append((v,m.group(0))); k=m.end()
        ins.a=inc; return ins
    if op=='select':
        k=skipflags(s,j)
        ops,k=parse_operands(s,k,mod)
        ins.ty=ops[1][0]; ins.a=tuple(v for _,v in ops); ins.x=ops[0][0]; return ins
    if op=='ret':
        if s.startswith('void',j+1): return ins
        ops,k=parse_operands(s,j,mod); ins.ty=ops[0][0]; ins.a=(ops[0][1],); return ins
    if op=='alloca':
        k=j+1
        if s.startswith('inalloca ',k): k+=9
        t,k=parse_type(s,k,mod); ins.ty=t; ins.a=()
        m=re.compile(r', (i\d+) ').match(s,k)
        if m:
            v,k=parse_value(s,m.end(),('i',64),mod); ins.a=(v,)
        ins.x=_al(s,k)
        return ins
    if op in ('call','tail','musttail','notail'):
        k=s.index('call ',i)+5
        return parse_call(s,k,mod,ins)
    if op=='fneg':
        k=skipflags(s,j); t,k=parse_type(s,k,mod); v,k=parse_value(s,k,t,mod)
        ins.ty=t; ins.a=(v,); return ins
    if op in ('extractelement','insertelement','shufflevector'):
        ops,k=parse_operands(s,j,mod)
        ins.a=tuple(v for _,v in ops); ins.ty=ops[0][0]; ins.x=[t for t,_ in ops]; return ins
    if op in ('extractvalue','insertvalue'):
        n=1 if op=='extractvalue' else 2
        ops,k=parse_operands(s,j,mod,n)
        idx=[int(x) for x in re.findall(r', (\d+)',s[k:])]
        ins.ty=ops[0][0]; ins.a=tuple(v for _,v in ops); ins.x=idx; return ins
    if op=='freeze':
        t,k=parse_type(s,j,mod); v,k=parse_value(s,k,t,mod); ins.ty=t; ins.a=(v,); return ins
    if op in ('unreachable','fence','resume'): return ins
    if op=='switch':
        t,k=parse_type(s,j,mod); v,k=parse_value(s,k,t,mod)
        m=re.compile(r', label (%[\w.$"-]+)').match(s,k)
        cases=re.findall(r'i\d+ (-?\d+), label (%[\w.$"-]+)',s[m.end():])
        ins.ty=t; ins.x=v; ins.a=(m.group(1),[(int(a),b) for a,b in cases]); return ins
    if op=='va_arg': return ins
    raise LLError('instr? '+line)

def parse_module(text,path=None,only=None):
    """only: predicate on function names; bodies of others are skipped"""
    mod=Module(); mod.path=path
    lines=text.split('\n')
    n=len(lines); i=0
    defs=[]
    while i<n:
        l=lines[i]; i+=1
        if not l: continue
        c=l[0]
        if c=='%':
            m=re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = type (.*)',l)
            if m:
                if m.group(2)=='opaque': mod.structs[m.group(1)]=('s',m.group(1),(),False)
                else:
                    t,_=parse_type(m.group(2)+' ',0,mod)
                    mod.structs[m.group(1)]=('s',m.group(1),t[2],t[3])
        elif c=='@':
            m=re.match(r'@("[^"]*"|[\w.$-]+) = (.*)',l)
            g=Global(); g.name=m.group(1).strip('"'); g.raw=m.group(2); g.mod=mod; g.init=None
            m2=re.search(r'(?:^| )(global|constant) ',g.raw)
            if not m2: continue
            g.const=m2.group(1)=='constant'; g.linkage=g.raw[:m2.start()]
            g.type,k=parse_type(g.raw,m2.end(),mod)
            g.raw=(g.raw,k)
            mod.globals[g.name]=g
        elif c=='!':
            m=re.match(r'!(\d+) = (.*)',l)
            if m: mod.md[m.group(1)]=m.group(2)
        elif l.startswith('declare'):
            m=re.search(r'@("[^"]*"|[\w.$-]+)\(',l)
            mod.decls[m.group(1).strip('"')]=l
        elif l.startswith('define'):
            j=i
            while lines[j]!='}': j+=1
            defs.append((l,i,j)); i=j+1
    for l,i,j in defs:
        m=re.search(r'@("[^"]*"|[\w.$-]+)\(',l)
        name=m.group(1).strip('"')
        f=Function(name); f.mod=mod; f.internal=' internal ' in l[:m.start()]
        pre=l[:m.start()]
        pre=re.sub(r'^define ','',pre)
        pre=re.sub(r'(dso_local|internal|linkonce_odr|available_externally|hidden|private|weak|local_unnamed_addr|fastcc|aarch64_vector_pcs|aarch64_sve_vector_pcs) ','',pre)
        k,_=skip_attrs(pre+' ',0)
        f.ret,_=parse_type(pre+' ',k,mod)
        k=m.end()
        while l[k]!=')':
            while l[k] in ' ,': k+=1
            if l.startswith('...',k): f.vararg=True; k+=3; continue
            t,k=parse_type(l,k,mod)
            k,bv=skip_attrs(l,k)
            if l[k]=='%':
                mm=_reg.match(l,k); k=mm.end(); f.params.append((mm.group(0),t,bv))
            else:
                f.params.append(('%%%d'%len(f.params),t,bv))
        mm=re.search(r'!dbg !(\d+)',l[k:])
        f.dbg=mm.group(1) if mm else None
        f._lines=(lines,i,j); f.parsed=False
        mod.functions[name]=f
    return mod

_label=re.compile(r'^("[^"]*"|[\w.$-]+):')
def body(f):
    """parse the body on first use"""
    if f.parsed: return f
    f.parsed=True
    lines,i,j=f._lines
    mod=f.mod
    nun=0
    # implicit entry label: number of unnamed params
    cur=None
    k=i
    while k<j:
        l=lines[k]; k+=1
        if not l: continue
        m=_label.match(l)
        if m and not l.startswith(' '):
            cur='%'+m.group(1); f.blocks[cur]=[]; f.order.append(cur); continue
        if l.lstrip().startswith(';') or l.startswith('    #dbg') : continue
        if cur is None:
            # entry block has an implicit number
            cur='%'+str(len([p for p in f.params if re.match(r'%\d+$',p[0])]))
            f.blocks[cur]=[]; f.order.append(cur)
        s=l
        if s.lstrip().startswith('switch ') and s.rstrip().endswith('['):
            while not lines[k].strip().startswith(']'):
                s=s.rstrip()+' '+lines[k].strip(); k+=1
            s=s+' '+lines[k].strip(); k+=1
        f.blocks[cur].append(parse_instr(s,mod,f))
    return f

def global_init(g):
    """parsed initialiser of a global, or None if external"""
    if g.init is not None: return g.init
    raw,k=g.raw
    r=raw[k:]
    if not r.strip() or r.lstrip().startswith(',') : return None
    g.init,_=parse_value(raw,k,g.type,g.mod)
    return g.init
