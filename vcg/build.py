"""Compiles a harness (which includes the real /repo headers) to normalised LLVM IR."""
import subprocess, re, os, tempfile, hashlib
from . import ir
LLVM='/usr/lib/llvm-18/bin/'
REPO=os.environ.get('VERIF_REPO','/repo')
HERE=os.path.dirname(os.path.abspath(__file__))
PASSES=('internalize,globaldce,function(sroa,early-cse,simplifycfg),'
 'cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),'
 'globaldce,function(sroa,gvn<no-pre;no-load-pre>,adce,instcombine<no-verify-fixpoint>,simplifycfg,'
 'loop-simplify,loop(loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,adce,loop-simplify),globaldce')

class BuildError(Exception): pass

def run(cmd,**kw):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,**kw)
    if r.returncode: raise BuildError(' '.join(cmd[:3])+'...: '+r.stderr[-3000:])
    return r.stdout

def compile_ir(src,roots,noinline=(),flags=(),keep=None):
    """src: file name under vcg/harness. returns (ir text after normalisation, raw text)"""
    tmp=tempfile.mkdtemp(prefix='vcg')
    try:
        a=tmp+'/a.ll'; b=tmp+'/b.ll'; c=tmp+'/c.ll'
        run([LLVM+'clang++','-std=c++14','-O1','-DNDEBUG','-w','-I'+REPO+'/include','-I'+HERE+'/harness',
             '-Xclang','-disable-llvm-passes','-fno-discard-value-names','-S','-emit-llvm',
             *flags,os.path.join(HERE,'harness',src),'-o',a])
        txt=open(a).read()
        if noinline:
            names=re.findall(r'^define[^\n]*?@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',txt,re.M)
            dem=run([LLVM+'llvm-cxxfilt'],input='\n'.join(n.strip('"') for n in names)).split('\n')
            mark={n for n,d in zip(names,dem) if any(re.search(p,d) for p in noinline)}
            out=[]
            for L in txt.split('\n'):
                if L.startswith('define'):
                    m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',L)
                    if m.group(1) in mark:
                        L=re.sub(r'(\s#\d+)((?: [^{]*)?\{)$',r' noinline\1\2',L)
                out.append(L)
            txt='\n'.join(out)
            # drop conflicting attributes
            txt=re.sub(r'\balwaysinline\b','',txt) if False else txt
        open(b,'w').write(txt)
        run([LLVM+'opt','-S','-passes='+PASSES,'-internalize-public-api-list='+','.join(roots),
             '-inline-threshold=1000000','-unroll-threshold=100000','-unroll-full-max-count=8',b,'-o',c])
        t=open(c).read()
        if keep: open(keep,'w').write(t)
        return t
    finally:
        subprocess.run(['rm','-rf',tmp])

_dem={}
def demangle(names):
    need=[n for n in names if n not in _dem]
    if need:
        o=run([LLVM+'llvm-cxxfilt'],input='\n'.join(n.lstrip('@') for n in need)).split('\n')
        for n,d in zip(need,o): _dem[n]=d
    return [_dem[n] for n in names]

def module(src,roots,noinline=(),flags=(),keep=None):
    t=compile_ir(src,roots,noinline,flags,keep)
    return ir.parse_module(t)
