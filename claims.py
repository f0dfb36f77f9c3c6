NA={}
CLAIM['C01']=(K,'Every generated gate kernel equals the embedding of its matrix for all n<=30, operands and states; exact complex arithmetic assumed.')
CLAIM['C06']=(K,'The norm and collapse kernels follow the Born rule for all n<=30, qubits and states; exact arithmetic assumed.')
CLAIM['C22']=(K,'Every read and write of every kernel is in bounds and every pair is visited once, for all n<=30 and distinct in-range operands.')

PY='contracts on the real Python/Cython functions, verification conditions by symbolic execution of the source (pyvc) discharged by z3/cvc5'
CLAIM['C18']=(PY,'Every method of Bit, Qubit and Variable meets its contract for all values and object states; ids are arbitrary strings (C17 covers them).')
CLAIM['C20']=(PY,'mixedproperty and the locking metaclass meet their contracts for all functions and classes; that each gate matrix is such a property is read off the class table.')
CLAIM['C10']=(PY,'Entering, leaving, freezing and appending meet their contracts for all circuit states and nestings; register contents enter through the contract of Circuit.qubits/bits.')
CLAIM['C11']=(PY,'Every public constructor and re-targeting path of every operation class meets its contract for all arguments and circuit states.')
CLAIM['C21']=(PY,'Circuit.remove and Circuit.reset meet their contracts for all circuits, operations and register lists.')

CLAIM['C01']=(K+'; the simulator functions above them by pyvc','Every generated gate kernel equals the embedding of its matrix for all n<=30, operands and states, and apply_instruction dispatches every operation class to the kernel with its own matrix and targets; exact complex arithmetic assumed.')
CLAIM['C06']=(K+'; the measurement functions above them by pyvc','The norm and collapse kernels and _measure, Measurement.sample follow the Born rule for all n<=30, qubits and states; exact arithmetic assumed.')
CLAIM['C22']=(K+'; the callers by pyvc','Every read and write of every kernel is in bounds for all n<=30 and distinct in-range operands, and every caller establishes the kernels preconditions.')
CLAIM['C02']=(PY,'The density-matrix path applies each operation on rows and columns with the conjugate kernel, for all circuits without measurement.')
CLAIM['C07']=(PY,'Conditional operations run exactly when all their bits are set at that point of the run, for all circuits and bit histories.')
CLAIM['C19']=(PY,'set_state, state and density_matrix meet their contracts for all arrays and circuit sizes.')
CLAIM['C17']=(PY,'IDCounter meets its contract for all states of the counter and all lengths and batch sizes.')
CLAIM['C13']=(PY,'Evaluation of parametric operations and circuits, in place and on copies, meets its contract for all circuits and values; deepcopy is a trusted renaming of addresses.')
CLAIM['C03']=('postconditions on the real matrix functions of every library gate, discharged by symbolic execution of those functions (straight-line code, symbolic parameters) to exponential-polynomial normal forms','Every gate matrix, static or from parameters, is unitary and equals the documented one for all real parameters; exact complex arithmetic assumed.')
CLAIM['C08']=(PY,'Every function of the register classes (append, extend, index, slice, iterate, copy, add, freeze, and the self-incrementing register) meets its contract over the representation invariant of the two dictionaries, for all registers.')
CLAIM['C05']=(PY,'build_unitary and the functions that embed single-qubit and controlled gates meet their contracts for all circuits of such gates; mm, kron and eye are numpy, the controlled matrix is C04.')
CLAIM['C04']=(PY+'; the matrix-filling loop by a bounded stand-in (symbolic execution of the real code, every operand choice up to 7 qubits)','Rejections of bad indices are proved for all inputs; the entries of the matrix are decided for all 2x2 matrices U but only up to 6 (quick) or 7 qubits (bounded, not counted as proved).')
