"""Which functions are verified for which property."""
import os
from .ded import Task
from . import oblig

KGATES=['single_qubit','apply_gate_control','apply_gate_two_control','apply_swap','apply_cswap']
KASSUME=['kernel arithmetic on amplitudes is treated as exact complex arithmetic (floating-point rounding is not modelled)',
         'number of qubits n <= 30 (the kernels shift 32-bit ints; a 2**30 state has 16 GiB)','operand qubits distinct and below n (established by the callers under contract)']
KTRUST=['clang 18 JSON AST of the generated ops.h is the code that g++ compiles','std::sort, std::complex arithmetic, std::norm/conj per their library specification',
        'z3 / cvc5','vlib/ckern.py verification-condition generator']

def kernel_task(tree,name,kinds):
    from . import ckern
    funcs=ckern.parse(os.path.join(tree,'dwave/gate/simulator/ops.h'))
    if name not in funcs: return dict(rows=[],unsupported=[f'{name}: kernel not found in the generated source'])
    obs,uns,K=ckern.verify_kernel(funcs,name)
    if not uns or obs: ckern.discharge(K,60000)
    rows=[o.row() for o in K.obs]
    for r,o in zip(rows,K.obs):
        if o.model is not None: r['model']=str(o.model)[:600]
    if kinds: rows=[r for r in rows if any(k in r['kind'] or k in r['obligation'] for k in kinds)]
    return dict(rows=rows,unsupported=[f'{name}: {uns}'] if uns else [])

def kernels(names,kinds=None):
    return [Task(f'{n}_{e}_endian (generated ops.h)',kernel_task,f'{n}_{e}_endian',kinds,limit=500) for n in names for e in('big','little')]
MEAS=[f'measurement_computational_basis_op{o}_{k}' for o in(0,1) for k in('norm','apply')]
NOISE=[f'{b}_op{o}_{k}' for b in('dephase_noise','amplitude_dampening_noise') for o in(0,1) for k in('norm','apply')]

def tasks(prop,tree,tier):
    T=[]; meta=dict(trusted=[],assumptions=[],bounded=[])
    if prop=='C01': T+=kernels(KGATES)
    if prop=='C06': T+=kernels(MEAS)
    if prop=='C22': T+=kernels(KGATES+MEAS+NOISE)
    if T: meta['trusted']+=KTRUST; meta['assumptions']+=KASSUME
    from . import symx; symx.add(prop,tree,tier,T,meta)
    from . import pyunits
    pyunits.add(prop,tree,tier,T,meta)
    T.sort(key=lambda t:-(('cswap' in t.name)*3+('two_control' in t.name)*3+('swap' in t.name)))
    return T,meta
