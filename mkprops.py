#!/usr/bin/env python3
"""Writes properties.jsonl (source of truth for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
G='dwave/gate/'
prop('C01','State-vector simulation applies every gate to its qubits, in order',
 "Simulating a circuit of library gates (and single-qubit or one/two-controlled custom gates) on any number of qubits yields the state obtained from |0...0> by applying each operation's matrix to its operand qubits in circuit order, with the first qubit as the most significant index bit, or the least significant one when little-endian is requested. Amplitudes outside an operation's control/target subspace are left untouched, whatever the (distinct) operand positions. Barriers and identities have no effect, and an operation the simulator cannot apply is rejected with an error instead of being skipped or misapplied.",
 ['inputs','programs','configurations'],
 'all qubit counts n (up to 30), all distinct operand tuples, all complex gate matrices and states, all gate sequences, both endiannesses',
 'tests simulate a few circuits on at most a handful of qubits; operand permutations, gate sequences and state contents are unbounded',
 [G+'simulator/operation_generation.py',G+'simulator/simulator.pyx'],
 [('generated apply kernels','simulator/operation_generation.py: generate_op'),('dispatch','simulator/simulator.pyx: apply_instruction'),('driver loop','simulator/simulator.pyx: simulate')],
 [('state vector','2**n complex amplitudes','simulate: state')],['Circuit.state after simulate()'])
prop('C02','Density matrices agree with the pure state they describe',
 "For every circuit without measurements, mixed-state simulation yields exactly |psi><psi| of the state vector psi that state-vector simulation yields with the same endianness. For every pure state set on or computed for a circuit, the circuit's density matrix is |psi><psi| (entry (i,j) is psi_i times the complex conjugate of psi_j).",
 ['inputs','programs','configurations'],'all circuits of supported gates, all n, both endiannesses, all complex state vectors',
 'tests compare a few circuits with mostly real amplitudes, big-endian only',
 [G+'simulator/simulator.pyx',G+'circuit.py'],
 [('row/column application','simulator/simulator.pyx: _simulate_circuit_density_matrix'),('outer product','circuit.py: Circuit.density_matrix')],
 [],['Circuit.density_matrix'])
prop('C03','Gate matrices are the standard unitaries for all parameter values',
 "Every library gate's matrix, read outside an active circuit context, equals its standard definition for all real parameter values: RX, RY, RZ are exp(-i*theta*P/2) and Rotation(b,g,d) is RZ(d)RY(g)RZ(b). Every matrix is unitary, and a controlled gate's matrix is the identity on the control-0 half and the target gate's matrix (with the same parameters) on the control-1 half, with the control as the more significant qubit.",
 ['inputs'],'all real parameters of all library gates, class and instance access','tests sample a few angles',
 [G+'operations/operations.py',G+'operations/base.py'],[('matrix properties','operations/operations.py'),('controlled matrix','operations/base.py: ControlledOperation.matrix')],[],['Operation.matrix'])
prop('C04','Controlled unitaries act as U exactly where all controls are 1',
 "Building a controlled unitary from control indices, one target index, a 2x2 matrix U and a qubit count gives the matrix that applies U to the target on all basis states in which every control is 1 and the identity on all others, with qubit 0 as the most significant bit and the smallest possible qubit count if none is given. Overlapping control/target indices, indices beyond the qubit count and multiple targets are rejected.",
 ['inputs'],'all n, all sets of distinct controls in any order, all targets, all complex U','tests sample few index combinations',
 [G+'tools/unitary.py'],[('row-pair construction','tools/unitary.py: build_controlled_unitary')],[],['build_controlled_unitary result'])
prop('C05','Custom operations have the matrix of the circuit they are made from',
 "The unitary built for a circuit of single-qubit and (multi-)controlled single-qubit-target gates is the ordered product of those gates embedded on their qubits, for the circuit's current contents. An operation class created from such a circuit has the circuit's number of qubits and parameters, and its matrix is that unitary with the i-th parameter substituted for the circuit's i-th parameter variable wherever that variable is used.",
 ['inputs','programs'],'all circuits of such gates, all uses of parameter variables (in any order, repeated or unused), all parameter values, repeated evaluation','tests build a few fixed circuits with variables in order of appearance',
 [G+'operations/base.py',G+'tools/unitary.py'],[('substitution and product','operations/base.py: create_operation'),('product','tools/unitary.py: build_unitary')],[],['CustomOperation.matrix'])
prop('C06','Measurement follows the Born rule, collapses the state and stores results',
 "Measuring a qubit gives 1 with exactly the squared norm of the state's component in which that qubit is 1 (0 otherwise) and leaves that component, renormalized, as the state; measuring several qubits measures them one after the other. The k-th measured qubit's outcome is stored in the k-th bit given to the measurement, replacing any earlier value, and the measurement remembers the state just before it and which circuit qubits it measured in the latest simulation. Sampling a measurement only returns outcomes possible for the remembered state and never alters it.",
 ['inputs','programs'],'all states, all qubits, all random draws, all bit assignments, repeated simulation and sampling','tests use basis states or statistics of a few states',
 [G+'simulator/simulator.pyx',G+'simulator/operation_generation.py',G+'operations/base.py'],
 [('norm/apply kernels','simulator/operation_generation.py: generate_op_set'),('storage','simulator/simulator.pyx: _measure'),('sampling','operations/base.py: Measurement.sample')],[],['Bit.value','Circuit.state','Measurement.state/sample/expval'])
prop('C07','Conditional operations run exactly when none of their bits is 0',
 "An operation conditioned on bits is applied in simulation if and only if, at that point of the simulation, none of those bits has the value 0 (unset bits do not block); a blocked operation, including a measurement, changes neither the state nor any bit. An operation without conditions is never blocked.",
 ['inputs','programs','histories'],'all bit values (unset, 0, 1), all sets of condition bits, all operation types, bits set by earlier measurements of the same simulation','tests try one gate with few bit values',
 [G+'operations/base.py',G+'simulator/simulator.pyx',G+'primitives.py'],[('blocking','operations/base.py: Operation.is_blocked'),('check before dispatch','simulator/simulator.pyx: apply_instruction')],[],['Operation.is_blocked','Circuit.state','Bit.value'])
prop('C08','Registers behave as immutable-order sequences of distinct items',
 "After any sequence of additions a register is the sequence of distinct items added, in order of addition: length, iteration, membership, indexing (also negative), slicing and position lookup all agree with that sequence. Adding an item that is already present raises an error, adding to a frozen register raises and leaves it unchanged, and adding two registers or copying one gives an independent, unfrozen register without altering the originals; indexing an unfrozen self-incrementing register past its end appends fresh variables named by their position up to that index and returns the last one.",
 ['inputs','histories'],'all item types (qubits, bits with or without values, variables, machine-size integers, strings), all operation sequences, all indices and slices','tests sample short sequences and a few slices',
 [G+'registers/cyregister.pyx',G+'registers/registers.py'],[('two-dict representation','registers/cyregister.pyx: cyRegister'),('freeze','registers/registers.py: Register.add')],
 [('_index_to_label/_label_to_index/_stop','sparse bijection index <-> item','registers/cyregister.pxd')],['len/iter/in/[]/index/data'])
prop('C09','Circuit qubits and bits always are its registers laid end to end',
 "After any sequence of adding qubits, bits and registers and resetting, the circuit's qubits (bits) are exactly the items of its quantum (classical) registers in register order, without duplicates, and the reported counts match; a qubit or bit that is given explicitly is itself added, with its label and value, to the requested register (created if missing, the first one by default). Adding a qubit or bit already in the circuit or something of the wrong type, or reusing a register label, raises without changing the circuit's qubits and bits. Finding or getting a qubit or bit returns its actual register and position, or the first (or all) items with the label, also when restricted to one register, and raises if there is none.",
 ['histories','inputs'],'all call histories, all labels (including falsy ones), bits with values','tests use short fixed histories',
 [G+'circuit.py'],[('cache invalidation','circuit.py: add_qubit/add_bit/add_qregister/add_cregister/reset'),('lookup','circuit.py: get_qubit/find_qubit/get_bit/find_bit')],[],['Circuit.qubits/bits/num_qubits/num_bits'])
prop('C10','At most one circuit context is active and only it receives operations',
 "At any time at most one circuit context is active: entering while one is active raises and leaves it active, and leaving (also by an exception) makes none active, and locks the circuit. An operation constructed while a context is active is appended exactly once to that circuit, unless the context is frozen; constructed outside, or while frozen (including nested freezes, until the outermost ends), it is appended nowhere. A locked circuit accepts no operations and cannot be entered until unlocked or reset.",
 ['histories','programs'],'all interleavings of entering, leaving, freezing, exceptions, locking and constructing operations','tests exercise single enter/exit sequences',
 [G+'circuit.py',G+'operations/base.py'],[('active context','circuit.py: CircuitContext'),('append on construction','operations/base.py: Operation.__init__'),('lock','circuit.py: Circuit.append')],
 [('_active_context','the active context or none','CircuitContext')],['Circuit.circuit','CircuitContext.active_context'])
prop('C11','Only well-formed operations on the circuit\'s own qubits enter a circuit',
 "An operation only enters a circuit if all its qubits are qubits of that circuit, and constructing or re-targeting an operation with a number of qubits or parameters different from what its type requires raises, whatever was done with that operation type before. A rejected operation leaves the circuit unchanged; an accepted one is appended at the end with exactly the qubits (controls first, then targets, in the given order) and parameters it was given.",
 ['inputs','histories'],'all operation types, all ways of passing qubits (single, sequence, register, control/target), all wrong counts, any earlier use of the type','tests check a few types in one access order',
 [G+'operations/base.py',G+'circuit.py'],[('count checks','operations/base.py: _check_qubits, _check_parameters'),('membership check','circuit.py: Circuit.append')],[],['Circuit.circuit','Operation.qubits/control/target/parameters'])
prop('C12','Applying a circuit inlines its operations faithfully',
 "Applying a circuit to qubits (and bits) inside another circuit's context appends, in order, one operation of the same type and parameters per operation of the applied circuit, with its i-th qubit (bit) replaced by the i-th one passed, for qubits, controls, targets, measured bits and condition bits; the applied circuit itself does not change. Without bits, measurements are appended unstored with a warning; a wrong number of qubits or bits, no active context or the circuit's own context raises and appends nothing.",
 ['programs','inputs'],'all applied circuits, all operand choices including reordering and bits with values','tests apply short circuits without conditions or multi-control gates',
 [G+'circuit.py'],[('mapping','circuit.py: Circuit.__call__')],[],['outer Circuit.circuit'])
prop('C13','Parametric circuits substitute exactly the given parameter values',
 "Evaluating a parametric operation or circuit replaces every variable by the explicitly given value for its position or else by the variable's own value, including zero, and raises if there is neither; explicit numeric parameters never change, and unless asked to work in place, the original operation or circuit and its variables stay untouched while in the copy conditions and measurements still refer to the copy's own bits. Applying a parametric circuit gives its i-th variable the i-th parameter for the appended operations, and the variables are reset when the context ends; a non-parametric circuit never contains an unresolved variable.",
 ['inputs','programs'],'all parameter values (including 0 and complex), all placements of variables, nesting of parametric circuits','tests use nonzero values and single-level circuits',
 [G+'operations/base.py',G+'circuit.py',G+'primitives.py'],[('evaluation','operations/base.py: ParametricOperation.eval; circuit.py: ParametricCircuit.eval, __call__')],[],['Operation.parameters','Circuit.circuit'])
prop('C14','OpenQASM export lists registers and operations faithfully',
 "The OpenQASM 2.0 text of a circuit of unconditional library gates consists of the header, one declaration per register with its size in register order, quantum before classical (named by its label if labels are requested, else by distinct default names), and then one statement per operation in circuit order. Each statement names the operation's gate with its parameters in order and its operands in order, each operand as the name declared for its register with its index in that register; with gate definitions requested, the definition of each used gate that has one appears exactly once. Operations without an OpenQASM form, unsupported versions and parametric circuits raise.",
 ['programs','configurations'],'all circuits, any number and sizes of registers, labels that are OpenQASM identifiers when labels are requested, all option combinations','tests check one or two registers and single operations',
 [G+'circuit.py',G+'operations/base.py',G+'operations/operations.py',G+'registers/registers.py'],[('emission','circuit.py: Circuit.to_qasm'),('statements','operations: to_qasm'),('operand mapping','operations/base.py: _map_qubits')],[],['Circuit.to_qasm()'])
prop('C15','QIR export contains the circuit\'s operations on the right qubits and results',
 "Compiling a circuit of unconditional operations to QIR gives, in circuit order, one call per gate to its QIR function with its parameters followed by its qubits, then one measurement call per measured qubit with its bit, then one output record per stored result, where qubits and bits are numbered by their position in the whole circuit; identities emit nothing and the declared qubit and result counts are the circuit's. Gates outside the base profile are emitted as calls to one declared external function each if external functions are allowed and rejected otherwise, and gates after a measurement are rejected; forced recompilation gives the same program.",
 ['programs','configurations'],'all circuits with any registers, all gates, both export modes, repeated compilation','tests compile circuits with one register and each external gate at most once',
 [G+'qir/compiler.py',G+'qir/instructions.py'],[('translation','qir/compiler.py: qir_module'),('emission','qir/compiler.py: BaseModule, qir/instructions.py: Instruction')],[],['Circuit.to_qir()'])
prop('C16','Loading exported QIR restores an equivalent circuit',
 "Loading the QIR (text or bitcode) compiled from a circuit of unconditional base-profile or external gates and final measurements gives a circuit with as many qubits, and the same gates with the same parameters on the same qubit positions in the same order, followed by the same qubit-to-bit measurements. Instructions after a function's return are ignored, non-QIS calls are skipped, and unknown QIS functions raise.",
 ['programs','inputs'],'all exportable circuits, both encodings; any QIR built from supported calls','tests load a few fixed programs',
 [G+'qir/loader.py',G+'qir/instructions.py',G+'qir/compiler.py'],[('parsing','qir/loader.py: _module_to_circuit, _deconstruct_call_instruction'),('name tables','qir/instructions.py: Operations')],[],['Circuit.from_qir(...).circuit'])
prop('C17','Qubit and bit IDs are never reused',
 "Between resets of the ID counter, every ID handed out differs from all IDs handed out before, across batch refreshes and ID-length changes, for every batch size and initial length, until the supply of distinct-character IDs of admissible lengths is exhausted, when an error is raised. Hence two separately created qubits (or bits) never compare equal.",
 ['histories','configurations'],'all numbers of IDs drawn, all batch sizes and initial lengths','tests draw a bounded number of IDs with few settings',
 [G+'tools/counters.py',G+'primitives.py'],[('batched combinations','tools/counters.py: IDCounter')],[],['IDCounter.next()','Qubit.id'])
prop('C18','Bits, qubits and variables have consistent value semantics',
 "A bit holds nothing or 0/1: setting stores the truth value of what is given, an already set bit only changes when forced and otherwise raises unchanged, and resetting clears it; a bit is false only if its value is 0. Two bits or qubits are equal exactly if they have the same ID and two variables if they have the same name, equal objects hash equally, and a bit or variable with a value (including zero) also equals that value while one without a value equals no number.",
 ['inputs','histories'],'all values and orders of set/force/reset, all pairs of objects','tests sample few values, mostly nonzero',
 [G+'primitives.py'],[('value handling','primitives.py: Bit, Variable, Qubit')],[],['Bit/Qubit/Variable API'])
prop('C19','Only normalized states of the right shape can be set, never silently',
 "Setting a state accepts exactly vectors of length 2**n with unit norm and 2**n x 2**n matrices with unit trace (n the number of qubits), optionally after dividing by that norm or trace; anything else raises and leaves the previous state. A state already set is only replaced when forced, after which exactly the new pure or mixed state is reported and asking for the pure state of a mixed one raises.",
 ['inputs','histories'],'all shapes and complex contents, all set/force/normalize histories','tests use a few small states, and no mixed state of rank above one',
 [G+'circuit.py'],[('validation','circuit.py: Circuit.set_state, _assert_state'),('access','circuit.py: Circuit.state, density_matrix')],[],['Circuit.state','Circuit.density_matrix'])
prop('C20','Mixed properties dispatch to class or instance and are read-only',
 "A mixed property read on a class or on an instance calls the decorated function with the class and, if the function takes it, the instance (none when read on the class); if the instance is required, reading it on the class gives None. It cannot be assigned on instances, and the matrix of an operation can be assigned neither on the class nor on instances.",
 ['inputs','programs'],'all decorated functions of one or two parameters, all classes and instances (including falsy ones)','tests use one example class',
 [G+'mixedproperty.py',G+'operations/base.py'],[('descriptor','mixedproperty.py: mixedproperty'),('metaclass','operations/base.py: ABCLockedAttr')],[],['attribute access'])
prop('C21','Removing operations and resetting a circuit do exactly what they say',
 "Removing an operation deletes the first operation equal to it (same type, qubits and parameters) and nothing else, for any mix of parametric and non-parametric operations, or raises and changes nothing if there is none. Resetting empties the operation list and unlocks the circuit and either keeps the registers, clearing the values of all bits, or, when asked to, removes them and with them all qubits and bits; afterwards the circuit can be built anew.",
 ['histories','inputs'],'all circuits and operation mixes, all histories before the call','tests remove single operations and reset simple circuits',
 [G+'circuit.py',G+'operations/base.py'],[('removal','circuit.py: Circuit.remove, operations/base.py: __eq__'),('reset','circuit.py: Circuit.reset')],[],['Circuit.circuit','Circuit.is_locked()'])
prop('C22','Simulation kernels never touch memory outside the state',
 "For every supported number of qubits and all distinct in-range operands, every read and write made by the simulation and measurement kernels lies inside the state vector and gate matrix buffers, and every amplitude pair is visited exactly once. Out-of-range qubits are rejected before any memory is accessed.",
 ['inputs'],'all n up to 30, all operands, both endiannesses, all kernels','out-of-bounds accesses are usually silent; tests use a few small n',
 [G+'simulator/operation_generation.py',G+'simulator/simulator.pyx'],[('index arithmetic','simulator/operation_generation.py: generate_op, generate_op_set'),('range check','simulator/simulator.pyx: sample_qubit; operations/base.py: Measurement.sample')],[],['kernel memory accesses'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
