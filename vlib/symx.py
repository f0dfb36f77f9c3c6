"""C03, C04: the real matrix functions are run, in the project's own interpreter and from a scratch build of the current tree, on
symbolic parameters (vlib/symx_run.py); their postconditions are decided on the resulting normal forms."""
import json, os, subprocess, tempfile, shutil
from . import build
from .ded import Task
HERE=os.path.dirname(os.path.abspath(__file__))
TRUST=['vlib/symx_run.py: symbolic numbers as exponential polynomials (linear independence of monomial*exponential functions)',
       'CPython and numpy object-array arithmetic (the real functions are executed on symbolic entries; numpy constructors and math/cmath cos, sin, exp, sqrt are replaced by symbolic ones)']
ASSUME=['arithmetic on matrix entries is treated as exact complex arithmetic; constants of the source are compared up to 1e-9']
def part(tree,what,*args):
    d=tempfile.mkdtemp(prefix='vsym')
    try:
        try: build.build(d)
        except build.BuildError as e: return dict(rows=[],unsupported=[f'{what}: {str(e)[-200:]}'])
        out=os.path.join(d,'.symx.json')
        p=subprocess.run([build.PY,'-B','-W','ignore',os.path.join(HERE,'symx_run.py'),out,what,*map(str,args)],cwd=d,env=build.env(d),capture_output=True,text=True,timeout=700)
        if not os.path.exists(out): return dict(rows=[],unsupported=[f'{what}: not executable on symbolic numbers: '+(p.stderr or p.stdout)[-300:]])
        r=json.load(open(out)); r.update(trusted=TRUST,assumptions=ASSUME); return r
    finally: shutil.rmtree(d,ignore_errors=True)
def add(prop,tree,tier,T,meta):
    if prop=='C03': T.append(Task('gate matrices (dwave.gate.operations, every library gate)',part,'c03'))
    if prop=='C04': T.append(Task('build_controlled_unitary [bounded]',part,'c04',6 if tier=='quick' else 7,limit=700))
