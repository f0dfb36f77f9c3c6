"""Builds the current working tree of /repo in a scratch directory (never in /repo itself)."""
import hashlib, os, shutil, subprocess, sys
REPO=os.environ.get('VP_REPO','/repo')
PY='/opt/venv/bin/python'
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP=('.so','.pyc','.o')
GENERATED=('dwave/gate/simulator/ops.h','dwave/gate/simulator/ops.pxd')

class BuildError(Exception): pass

def sources(repo=REPO):
    out=[]
    for d,ds,fs in os.walk(os.path.join(repo,'dwave')):
        ds[:]=sorted(x for x in ds if x!='__pycache__')
        for f in sorted(fs):
            rel=os.path.relpath(os.path.join(d,f),repo)
            if f.endswith(SKIP) or rel in GENERATED: continue
            if f.endswith('.cpp') and os.path.exists(os.path.join(d,f[:-4]+'.pyx')): continue
            out.append(rel)
    for f in ('setup.py','pyproject.toml','README.rst','LICENSE','MANIFEST.in'):
        if os.path.exists(os.path.join(repo,f)): out.append(f)
    return out

def fingerprint(repo=REPO):
    h=hashlib.sha256()
    for rel in sources(repo):
        h.update(rel.encode()+b'\0'); h.update(open(os.path.join(repo,rel),'rb').read())
    return h.hexdigest()[:24]

def env(tree=None):
    e={k:v for k,v in os.environ.items() if k not in('PYTHONPATH','CFLAGS','CXXFLAGS','LDFLAGS')}
    e.update(PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',PYTHONPYCACHEPREFIX='/nonexistent',PYTHONNOUSERSITE='1',
             OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1')
    if tree: e['PYTHONPATH']=tree
    return e

def copy_sources(dst,repo=REPO):
    for rel in sources(repo):
        p=os.path.join(dst,rel); os.makedirs(os.path.dirname(p),exist_ok=True); shutil.copy2(os.path.join(repo,rel),p)

def generate(dst):
    """run the project's own kernel generator"""
    p=subprocess.run([PY,'dwave/gate/simulator/operation_generation.py'],cwd=dst,env=env(),capture_output=True,text=True,timeout=120)
    if p.returncode: raise BuildError('kernel generation failed: '+p.stderr[-500:])

def compile_ext(dst):
    e=env(); e['CFLAGS']='-O1'; e['CXXFLAGS']='-O1'
    p=subprocess.run([PY,'setup.py','-q','build_ext','--inplace','--force','-j','4'],cwd=dst,env=e,capture_output=True,text=True,timeout=600)
    if p.returncode: raise BuildError('extension build failed: '+(p.stdout+p.stderr)[-1500:])

def build(dst,repo=REPO,cache=True):
    """full scratch build of repo's working tree into dst.  A finished build of byte-identical sources is reused
    from the (git-ignored) cache, keyed by the hash of every source file."""
    fp=fingerprint(repo); c=os.path.join(VERIF,'.cache',fp)
    os.makedirs(dst,exist_ok=True)
    if cache and os.path.exists(os.path.join(c,'DONE')):
        shutil.copytree(c,dst,dirs_exist_ok=True); return 'cache'
    copy_sources(dst,repo); generate(dst); compile_ext(dst)
    # the tree must be the one that gets imported
    p=subprocess.run([PY,'-W','ignore','-c','import dwave.gate,dwave.gate.simulator.simulator as s,dwave.gate.registers.cyregister as c;'
        'print(dwave.gate.__file__);print(s.__file__);print(c.__file__)'],cwd='/',env=env(dst),capture_output=True,text=True,timeout=120)
    if p.returncode: raise BuildError('import failed: '+p.stderr[-1500:])
    for l in p.stdout.split():
        if not os.path.realpath(l).startswith(os.path.realpath(dst)+os.sep): raise BuildError('imported '+l)
    if cache:
        try:
            tmp=c+'.tmp%d'%os.getpid()
            shutil.rmtree(tmp,ignore_errors=True); os.makedirs(os.path.dirname(c),exist_ok=True)
            old=sorted((os.path.join(VERIF,'.cache',x) for x in os.listdir(os.path.join(VERIF,'.cache'))),key=os.path.getmtime)
            for x in old[:-6]: shutil.rmtree(x,ignore_errors=True)
            shutil.copytree(dst,tmp,ignore=shutil.ignore_patterns('build')); open(os.path.join(tmp,'DONE'),'w').close()
            os.rename(tmp,c)
        except OSError: shutil.rmtree(tmp,ignore_errors=True)
    return 'built'
if __name__=='__main__':
    import time; t=time.time(); print(build(sys.argv[1]),time.time()-t)
