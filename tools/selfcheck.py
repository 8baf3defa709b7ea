"""setup: every module of the framework imports; the tools it needs are there"""
import sys,os,shutil,py_compile,glob
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in glob.glob(H+'/lib/*.py')+glob.glob(H+'/checks/*.py'):
    compile(open(f).read(),f,'exec')
for t in ('clang','clang++','opt-18','g++','python3'):
    if not (shutil.which(t) or shutil.which(t+'-18')): print('missing tool',t); sys.exit(1)
os.makedirs(H+'/evidence',exist_ok=True)
print('framework ready')
