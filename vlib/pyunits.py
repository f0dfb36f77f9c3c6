"""Python-level functions under contract: one task per contract of the property's specification modules (vlib/specs)."""
import importlib, sys
from .ded import Task
SPECS={'C18':['c18'],'C20':['c20'],'C10':['core'],'C11':['core'],'C21':['core'],'C01':['sim'],'C02':['sim','c19'],'C06':['sim'],'C07':['sim'],'C22':['sim'],'C19':['c19'],'C17':['c17'],'C13':['c13'],'C04':['c05'],'C05':['c05'],'C08':['c08']}
PYTRUST=['CPython/Cython semantics of the statements and builtins used, as encoded in vlib/pyvc (eng, interp, expr)',
 'the mechanical lowering of .pyx/.pxd text (vlib/pyvc/lower.py; what it drops is listed there)','z3']
PYASSUME=['partial correctness: termination and memory exhaustion are not covered','Python and C integers are treated as mathematical integers',
 'the classes of the tree are all the classes there are (no user subclass overrides a method)',
 'the text of exceptions and warnings is not evaluated','fields hold values of their declared types when an operation starts (every assignment in a verified function is checked to keep them)']

def run_contract(tree,mod,idx,qual):
    sys.setrecursionlimit(6000)
    m=importlib.import_module('vlib.specs.'+mod); E,cs,meta=m.load(tree); c=cs[idx]
    rows,uns,sec=(c.runner(E) if getattr(c,'runner',None) else E.verify(c))
    return dict(rows=rows,unsupported=[f'{q}: {why}' for q,why in uns],trusted=meta.get('trusted',[]),
                assumptions=meta.get('assumptions',[])+sorted(E.assumed),bounded=meta.get('bounded',[]))

def add(prop,tree,tier,T,meta):
    import warnings; warnings.simplefilter('ignore')
    if prop not in SPECS: return
    meta['trusted']+=[x for x in PYTRUST if x not in meta['trusted']]; meta['assumptions']+=[x for x in PYASSUME if x not in meta['assumptions']]
    for mod in SPECS[prop]:
        try:
            m=importlib.import_module('vlib.specs.'+mod); E,cs,mt=m.load(tree)
        except Exception as e:
            meta.setdefault('unsupported',[]).append(f'{mod}: the specification does not fit this tree ({type(e).__name__}: {e})'); continue
        for i,c in enumerate(cs):
            if c.props and prop not in c.props: continue
            T.append(Task(c.qual+(f' [{c.note}]' if c.note else ''),run_contract,mod,i,c.qual,limit=300))
