"""random circuits on the real library, with the expected operation list kept separately"""
import numpy as np
import dwave.gate as dg
from dwave.gate.circuit import Circuit, ParametricCircuit, CircuitContext, CircuitError
from dwave.gate.primitives import Qubit, Bit, Variable
import dwave.gate.operations as ops
from dwave.gate.operations.base import Operation, ParametricOperation, ControlledOperation, ParametricControlledOperation, Measurement, Barrier, create_operation
from dwave.gate.mixedproperty import mixedproperty
from dwave.gate.simulator.simulator import simulate, sample_qubit
from . import ref

def new_circuit(t,n,nb=None,cls=Circuit,split=True):
    """n qubits, possibly in several registers"""
    r=t.r
    if n and (not split or r.random()<.5): c=cls(n,nb); t.step(f'{cls.__name__}({n},{nb})'); return c
    c=cls(); left=n; k=0
    while left:
        m=r.randint(1,left)
        if r.random()<.3:
            for _ in range(m): c.add_qubit(qreg_label=f'r{k}')
        else: c.add_qregister(m,label=f'r{k}')
        t.step(f'qregister r{k}[{m}]'); k+=1; left-=m
    if nb:
        left=nb; k=0
        while left:
            m=r.randint(1,left); c.add_cregister(m,label=f'c{k}'); t.step(f'cregister c{k}[{m}]'); k+=1; left-=m
    return c

def pick(t,n,gates=None,maxq=3):
    r=t.r
    names=[g for g in (gates or ref.G) if ref.G[g][0]<=min(n,maxq)]
    g=r.choice(names); nq,np_,f,_=ref.G[g]
    return g,[ref.angle(r) for _ in range(np_)],r.sample(range(n),nq)

def apply_op(t,q,g,ps,tg,how=None):
    """construct the library operation in one of the equivalent ways"""
    r=t.r; cls=getattr(ops,g); nq,np_,_,_=ref.G[g]; qs=[q[i] for i in tg]
    isc=issubclass(cls,ControlledOperation)
    how=how if how is not None else r.randint(0,3)
    t.step(g,ps,tg,'way',how)
    P=[] if not np_ else [ps[0] if np_==1 and how==1 else list(ps)]
    if isc and how<2:
        k=cls.num_control if how==0 else 1
        return cls(*P,qs[:k] if len(qs[:k])>1 or how==0 else qs[0],qs[k:] if how==0 else qs[k])
    if isc and how==2: return cls(*P,control=qs[:1],target=qs[1:])
    if not isc and nq==1 and how==1: return cls(*P,qs[0])
    return cls(*P,qubits=tuple(qs) if how==2 else list(qs))
def mat(g,ps): return ref.G[g][2](*ps)

def custom_single(t):
    """a user-defined single-qubit gate: any complex, real or non-contiguous matrix"""
    U=ref.unitary(t.r); kind=t.r.choice(['c','real','f','int','strided'])
    if kind=='real': a=ref.angle(t.r); M=np.array([[np.cos(a),-np.sin(a)],[np.sin(a),np.cos(a)]])
    elif kind=='f': M=np.asfortranarray(U)
    elif kind=='int': M=np.array([[0,1],[1,0]])
    elif kind=='strided': B=np.zeros((4,4),complex); B[::2,::2]=U; M=B[::2,::2]
    else: M=U
    class CustomGate(Operation):
        _num_qubits=1
        @mixedproperty
        def matrix(cls): return M
    t.step('custom single-qubit gate',kind,M.tolist())
    return CustomGate,np.array(M,complex)
def custom_controlled(t,k,param=False):
    if param:
        class MC(ParametricControlledOperation):
            _num_control=k; _num_target=1; _num_params=1; _target_operation=t.r.choice([ops.RX,ops.RY,ops.RZ])
        f={'RX':ref.RX,'RY':ref.RY,'RZ':ref.RZ}[MC._target_operation.__name__]
        t.step('custom',k,'-controlled',MC._target_operation.__name__)
        return MC,f
    base,M=(None,None)
    if t.r.random()<.5: base,M=custom_single(t)
    else:
        g=t.r.choice(['X','Y','Z','Hadamard','S','T']); base,M=getattr(ops,g),mat(g,[]); t.step('target',g)
    class MC(ControlledOperation):
        _num_control=k; _num_target=1; _target_operation=base
    t.step('custom',k,'-controlled gate')
    return MC,M
