"""Declared field types of the verified source, shared models and helpers of the contracts."""
import z3, ast, time
from vlib.pyvc.eng import *
from vlib.pyvc.interp import *
from vlib.pyvc.interp import ALL
from vlib.pyvc.expr import *
from vlib.pyvc.verify import Verifier, Types
from vlib.pyvc import src as S_
P='dwave.gate.primitives:'; C='dwave.gate.circuit:'; O='dwave.gate.operations.base:'; R='dwave.gate.registers.registers:'; CY='dwave.gate.registers.cyregister:'
T_=z3.BoolVal(True)
def source(tree):
    s=S_.Source(tree); s.load_all(); return s
def fields(src):
    cl=lambda q: src.cls(q)
    try: Q,B,Va=cl(P+'Qubit'),cl(P+'Bit'),cl(P+'Variable')
    except S_.SrcError: return {},{}
    F={'Qubit':{'_label':('any',),'_id':('str',)},
       'Bit':{'_label':('any',),'_id':('str',),'_value':('opt',('int',))},
       'Variable':{'_name':('str',),'_value':('opt',('num',))}}
    E={}
    try:
        QR,CR,SR=cl(R+'QuantumRegister'),cl(R+'ClassicalRegister'),cl(R+'SelfIncrementingRegister')
        Op,Ci,Cx=cl(O+'Operation'),cl(C+'Circuit'),cl(C+'CircuitContext')
    except S_.SrcError: return F,E
    bits=('or',('tuple',('obj',B)),('list',('obj',B)))
    qs=('or',('tuple',('obj',Q)),('list',('obj',Q)),('obj',QR))
    F.update({'Register':{'_frozen':('maybe',('bool',))},
       'Circuit':{'_circuit':('list',('obj',Op)),'_circuit_context':('opt',('obj',Cx)),'_qregisters':('dict',('any',),('obj',QR)),'_cregisters':('dict',('any',),('obj',CR)),
           '_state':('any',),'_density_matrix':('any',),'_locked':('bool',),'@qubits':('maybe',('obj',QR)),'@bits':('maybe',('obj',CR))},
       'ParametricCircuit':{'_parameter_register':('obj',SR)},
       'CircuitContext':{'_circuit':('obj',Ci),'_frozen':('bool',)},
       'FrozenContext':{'_frozen':('maybe',('bool',))},
       'Operation':{'_qubits':('opt',('tuple',('obj',Q))),'_cond':('opt',bits),'_num_qubits':('maybe',('opt',('int',)))},
       'ParametricOperation':{'_parameters':('list',('any',))},
       'ControlledOperation':{'_control':('opt',qs),'_target':('opt',qs),'_num_control':('maybe',('opt',('int',))),'_num_target':('maybe',('opt',('int',)))},
       'ParametricControlledOperation':{'_target_matrix':('maybe',('any',))},
       'Measurement':{'_bits':('opt',('tuple',('obj',B))),'_measured_state':('any',),'_measured_qubit_indices':('list',('int',))}})
    E.update({'Register':('any',),'QuantumRegister':('obj',Q),'ClassicalRegister':('obj',B),'SelfIncrementingRegister':('obj',Va)})
    return F,E
def engine(src,contracts=(),models=None,loops=None,extern=None,cattrs=None,cells=(),factf=None,extra=None,elems=None,iterf=None,**kw):
    F,E=fields(src)
    for k,v in (extra or {}).items(): F.setdefault(k,{}).update(v)
    E.update(elems or {})
    t=Types(src,F,E,cattrs,cells,factf,iterf)
    return Verifier(src,t,{c.qual:c for c in contracts},models or {},loops or {},extern or {},**kw)
def rd(E,f,x): return E.read(f,x.ad)
