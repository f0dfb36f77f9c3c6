From 828c132b47a8f4e53f2ee75a6f1eabd54fadbe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 01/37] fix: conjugate the bra when building the density matrix
 of a pure state

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 17353f2..3408b86 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -251,7 +251,7 @@ class Circuit:
     def density_matrix(self) -> Optional[NDArray]:
         """The density matrix representation of the state."""
         if self._state is not None and self._density_matrix is None:
-            self._density_matrix = self._state.reshape(-1, 1) @ self._state.reshape(1, -1)
+            self._density_matrix = self._state.reshape(-1, 1) @ self._state.conj().reshape(1, -1)
         return self._density_matrix
 
     def set_state(self, state: NDArray, force: bool = False, normalize: bool = False) -> None:
-- 
2.43.0


From 9c54cd5b379dee182ec4921535bcbaaed9bb246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 02/37] fix: keep register items that compare equal to their
 own index

---
 dwave/gate/registers/cyregister.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index c737823..f9318fc 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -119,7 +119,9 @@ cdef class cyRegister:
 
         idx = self._stop
 
-        if idx != v:
+        # only store items which aren't implicitly given by their index; note that
+        # non-numeric items (e.g., bits) may compare equal to an integer
+        if not isinstance(v, Number) or idx != v:
             self._label_to_index[v] = idx
             self._index_to_label[idx] = v
 
-- 
2.43.0


From 074740e18e85bec8d918d0e77cddbdecf339127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 03/37] fix: add the passed bit to the circuit also when its
 value is 0

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 3408b86..7ac8e6e 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -414,7 +414,7 @@ class Circuit:
         if self.bits and bit in self.bits:
             raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
 
-        self.cregisters[creg_label].add(bit or Bit(str(self.num_bits)))
+        self.cregisters[creg_label].add(bit if bit is not None else Bit(str(self.num_bits)))
 
         # remove cached 'bits' attribute when updating 'cregisters'
         # will always be in 'self.__dict__' since 'self.bits' is called above
-- 
2.43.0


From 557b3826c53254499ae830dcafde6cd0567788ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 04/37] fix: copied and added registers are unfrozen instead of
 lacking the frozen flag

---
 dwave/gate/registers/registers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 431a100..dfbe524 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -45,6 +45,9 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         data: Sequence of hashable data items (defaults to empty).
     """
 
+    # copies are created without calling '__init__'
+    _frozen: bool = False
+
     def __init__(self, data: Optional[Sequence[Data]] = None) -> None:
         self._frozen = False
         super().__init__(data or [])
-- 
2.43.0


From 0d4a1ebfef3ce6658bc51d2554dcf444ff567829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 05/37] fix: register slices follow the sequence slicing rules

---
 dwave/gate/registers/cyregister.pyx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index f9318fc..4623ba2 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -63,9 +63,8 @@ cdef class cyRegister:
         if not isinstance(idx, slice):
             raise TypeError(f"indices must be integers or slices, not {type(idx)}")
 
-        cdef Py_ssize_t start = 0 if idx.start is None else idx.start
-        cdef Py_ssize_t stop = self.size() if idx.stop is None else idx.stop
-        cdef Py_ssize_t step = 1 if idx.step is None else idx.step
+        cdef Py_ssize_t start, stop, step
+        start, stop, step = idx.indices(self.size())
 
         cdef Py_ssize_t i
         cdef cyRegister new = type(self)()
-- 
2.43.0


From d07802f57b34ccbd051c63e8f2ad938adf0ad7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 06/37] fix: drop the cached qubits and bits when resetting the
 circuit registers

---
 dwave/gate/circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 7ac8e6e..4fe95a8 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -353,6 +353,10 @@ class Circuit:
         if not keep_registers:
             self._qregisters.clear()
             self._cregisters.clear()
+
+            # remove cached 'qubits' and 'bits' attributes
+            self.__dict__.pop("qubits", None)
+            self.__dict__.pop("bits", None)
         else:
             for bit in self.bits:
                 bit.reset()
-- 
2.43.0


From 456ca7187cd2c0e04d2f9e27014c13043912f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 07/37] fix: treat a variable with value 0 as having a value

---
 dwave/gate/operations/base.py | 2 +-
 dwave/gate/primitives.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d2dd45b..7d0354f 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -401,7 +401,7 @@ class ParametricOperation(Operation):
             if isinstance(p, Variable):
                 if parameters:
                     op.parameters[i] = parameters[i]
-                elif p.value:
+                elif p.value is not None:
                     op.parameters[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
diff --git a/dwave/gate/primitives.py b/dwave/gate/primitives.py
index 38c6721..559cda0 100644
--- a/dwave/gate/primitives.py
+++ b/dwave/gate/primitives.py
@@ -175,13 +175,13 @@ class Variable:
         """Two variables are equal if they share the same label."""
         if isinstance(object, Variable):
             return self.name == object.name
-        if self._value and self._value == object:
+        if self._value is not None and self._value == object:
             return True
         return False
 
     def __repr__(self) -> str:
         """The representation of the variable is its label."""
-        if self._value:
+        if self._value is not None:
             return str(self.value)
         return f"{{{self.name}}}"
 
-- 
2.43.0


From 86d7b2498c7791e80f715e6acfe21ce0cbe37f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 08/37] fix: comparing a parametric operation to a
 non-parametric one

---
 dwave/gate/operations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 7d0354f..b6c03c2 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -371,7 +371,7 @@ class ParametricOperation(Operation):
 
     def __eq__(self, op: ParametricOperation) -> bool:
         """Returns whether two operations are considered equal."""
-        param_eq = op.parameters == self.parameters
+        param_eq = getattr(op, "parameters", None) == self.parameters
         return param_eq and super().__eq__(op)
 
     @property
-- 
2.43.0


From 40aacdb35b946816013ba80a2883e317728275da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 09/37] fix: keep relabelled register items that compare equal
 to their own index

---
 dwave/gate/registers/cyregister.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 4623ba2..c27dfc0 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -188,7 +188,7 @@ cdef class cyRegister:
 
                 idx = self._label_to_index.pop(old, old)
 
-                if new != idx:
+                if not isinstance(new, Number) or new != idx:
                     self._label_to_index[new] = idx
                     self._index_to_label[idx] = new  # overwrites old idx
                 else:
-- 
2.43.0


From 13f8899a90bdf99c3cc602e8e04c733784cab1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 10/37] fix: simulating circuits with barriers or unknown
 multi-qubit operations

---
 dwave/gate/simulator/simulator.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 9dd3f66..113cd38 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -58,6 +58,10 @@ def apply_instruction(
             raise CircuitError("Measurements only supports big-endian qubit indexing.")
         _measure(op, state, targets, rng)
 
+    elif isinstance(op, ops.Barrier):
+        # barriers have no effect on the state
+        return
+
     elif isinstance(op, ops.SWAP):
         gate = op.matrix
         target0 = targets[1]
@@ -120,7 +124,7 @@ def apply_instruction(
         # apply single qubit gate
         if op.num_qubits != 1:
             raise ValueError(
-                f"simulator encountered unknown multi-qubit operation: {op.label}"
+                f"simulator encountered unknown multi-qubit operation: {op.name}"
             )
         gate = op.matrix
         if conjugate_gate:
-- 
2.43.0


From 926ede6b76d46e303aaf4a636a12da9767572cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 11/37] fix: always check the number of qubits of controlled
 operations

---
 dwave/gate/operations/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index b6c03c2..48721cc 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -212,9 +212,12 @@ class Operation(metaclass=ABCLockedAttr):
         if isinstance(qubits, Qubit):
             qubits = [qubits]
 
-        if cls._num_qubits is not None and len(qubits) != cls.num_qubits:
+        # 'None' if the operation supports an arbitrary number of qubits
+        num_qubits = getattr(cls, "num_qubits", None)
+
+        if num_qubits is not None and len(qubits) != num_qubits:
             raise ValueError(
-                f"Operation '{cls.name}' requires " f"{cls.num_qubits} qubits, got {len(qubits)}."
+                f"Operation '{cls.name}' requires " f"{num_qubits} qubits, got {len(qubits)}."
             )
 
         # cast to tuple for convention
-- 
2.43.0


From 6c59064cc7f00d8f3d3ab1aa1dd291a56da73524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 12/37] fix: build the unitary of the current circuit,
 including parametric controlled operations

---
 dwave/gate/tools/unitary.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 183b8f7..4bfb4c9 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -21,7 +21,6 @@ __all__ = [
 
 import itertools
 from collections.abc import Sequence
-from functools import lru_cache
 from typing import TYPE_CHECKING, Optional, Union
 
 import numpy as np
@@ -40,7 +39,6 @@ if TYPE_CHECKING:
 # TODO: exchange for something better; only here for testing matrix creation
 # for custom operations; controlled operations only works with single
 # control and target; no support for any other multi-qubit gates
-@lru_cache(maxsize=128)
 def build_unitary(circuit) -> NDArray:
     """Builds the circuit unitary by multiplying together the operation matrices.
 
@@ -102,8 +100,14 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     """
     control_idx = [qubits.index(c) for c in op.control or []]
     target_idx = [qubits.index(t) for t in op.target or []]
+
+    if hasattr(op, "parameters"):
+        target_unitary = op.target_operation(op.parameters).matrix
+    else:
+        target_unitary = op.target_operation.matrix
+
     controlled_unitary = build_controlled_unitary(
-        control_idx, target_idx, op.target_operation.matrix, len(qubits)
+        control_idx, target_idx, target_unitary, len(qubits)
     )
     return controlled_unitary @ state
 
-- 
2.43.0


From 7e121538c2528dc14a2b8fb3f69ea758c5c80839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 13/37] fix: measured qubit indices do not accumulate over
 simulations

---
 dwave/gate/simulator/simulator.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 113cd38..8dcf863 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -211,6 +211,7 @@ def sample_qubit(
 
 def _measure(op, state, targets, rng):
     op._measured_state = state.copy()
+    op._measured_qubit_indices = []
 
     for idx, t in enumerate(targets):
         m = sample_qubit(t, state, rng)
-- 
2.43.0


From 0f52977f1f660556912213bc14ec8cc989709249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 14/37] fix: map custom operation parameters to the
 corresponding circuit variables

---
 dwave/gate/operations/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 48721cc..1269c8a 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -133,14 +133,16 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             """
             circuit_copy = copy.deepcopy(circuit)
             if circuit.parametric:
-                parameters = self.parameters.copy()
+                # parameters correspond to the variables in the parameter register
+                register = circuit_copy._parameter_register
 
                 for i, op in enumerate(circuit_copy.circuit):
                     if isinstance(op, ParametricOperation):
                         for j, param in enumerate(op.parameters):
                             if isinstance(param, Variable):
-                                circuit_copy.circuit[i].parameters[j] = parameters.pop(0)  # type: ignore
-                            self._matrix
+                                circuit_copy.circuit[i].parameters[j] = self.parameters[
+                                    register.index(param)
+                                ]
 
             return build_unitary(circuit_copy)
 
-- 
2.43.0


From 08674ce29a3bc048c79780a358b370fd20b72273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 15/37] fix: compile circuits with several registers into QIR

---
 dwave/gate/qir/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index c98a62b..0cf6f06 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -365,8 +365,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             block = "measurements"
 
             for qb, b in zip(op.qubits, op.bits):
-                _, qubit_idx = circuit.find_qubit(qb)
-                _, bit_idx = circuit.find_bit(b)
+                qubit_idx = circuit.qubits.index(qb)
+                bit_idx = circuit.bits.index(b)
                 args = (module.qubits[qubit_idx], module.results[bit_idx])
 
                 measurement_instruction = Instruction(InstrType.MEASUREMENT, pyqir_op, args)
@@ -386,7 +386,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 args.extend(op.parameters)
 
             for qb in op.qubits:
-                _, qubit_idx = circuit.find_qubit(qb)
+                qubit_idx = circuit.qubits.index(qb)
                 args.append(module.qubits[qubit_idx])
 
             if type_ is InstrType.EXTERNAL:
-- 
2.43.0


From 172fd226d52f51c4ad554ed1de9f72dc306ac83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 16/37] fix: skip identity operations when compiling to QIR

---
 dwave/gate/qir/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 0cf6f06..57e1495 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -395,6 +395,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 body_instruction = Instruction(InstrType.BASE, pyqir_op, args)
 
             module.add_instruction("body", body_instruction)
+        elif type_ is InstrType.SKIP:
+            continue
+
         elif type_ is InstrType.DECOMPOSE or (type_ is InstrType.EXTERNAL and not add_external):
             raise NotImplementedError("Operation decompositions not supported.")
         else:
-- 
2.43.0


From 69f7fd6687353b5b0953139addfbb418678eaa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 17/37] fix: compile repeated and parametric external
 operations into QIR

---
 dwave/gate/qir/compiler.py     | 7 +++++--
 dwave/gate/qir/instructions.py | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 57e1495..f0cc7ed 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -356,9 +356,12 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             param_type = module.Types.DOUBLE
 
             num_parameters = getattr(op, "num_parameters", 0)
-            parameter_types = [qubit_type] * op.num_qubits + [param_type] * num_parameters
+            # same order as the arguments; parameters followed by qubits
+            parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
-            module.add_external_function(pyqir_op, parameter_types=parameter_types)
+            # each external function should only be declared once
+            if pyqir_op not in module._external_functions:
+                module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
         args = []
         if type_ is InstrType.MEASUREMENT:
diff --git a/dwave/gate/qir/instructions.py b/dwave/gate/qir/instructions.py
index 143edf9..90153a9 100644
--- a/dwave/gate/qir/instructions.py
+++ b/dwave/gate/qir/instructions.py
@@ -182,7 +182,11 @@ class Instruction:
         Args:
             builder: PyQIR module builder.
         """
-        builder.call(self._external, self.args)
+        args = [
+            arg if isinstance(arg, pyqir.Constant) else pyqir.const(param.type, float(arg))
+            for arg, param in zip(self.args, self._external.params)
+        ]
+        builder.call(self._external, args)
 
     def __eq__(self, value: object) -> bool:
         """Whether two instructions are considered equal.
-- 
2.43.0


From 89a0d087eaa4cafbeb2d65c5fd71c50af58d9725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 18/37] fix: keep external instructions when recompiling a QIR
 module

---
 dwave/gate/qir/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index f0cc7ed..cff8ae5 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -303,7 +303,6 @@ class BaseModule:
             rm_instructions: Whether to also reset all instructions.
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
-        self._remove_external_instructions()
         self._return.erase()
 
         if rm_instructions:
@@ -324,6 +323,11 @@ class BaseModule:
                     function_type, Linkage.EXTERNAL, exfunc.name, self._module
                 )
 
+            for instructions in self._instructions.values():
+                for instr in instructions:
+                    if instr.type is InstrType.EXTERNAL:
+                        instr._external = self._external_functions[instr.name]
+
         self._is_compiled = False
         self._qir = self._bitcode = None
 
-- 
2.43.0


From 8ca74268c1bdd7f452292721a239aacf2de0a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 19/37] fix: apply circuits to a single bit with value 0

---
 dwave/gate/circuit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 4fe95a8..8f383c8 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -115,10 +115,10 @@ class Circuit:
         if len(qubits) != len(self.qubits):
             raise ValueError(f"Circuit requires {len(self.qubits)} qubits, got {len(qubits)}.")
 
-        if bits:
-            if isinstance(bits, Bit):
-                bits = [bits]
+        if isinstance(bits, Bit):
+            bits = [bits]
 
+        if bits:
             if len(bits) != len(self.bits):
                 raise ValueError(f"Circuit requires {len(self.bits)} bits, got {len(bits)}.")
 
-- 
2.43.0


From 9b21dc560fc467af30e8f4179b6d84df5cafab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 20/37] fix: apply circuits containing measurements that aren't
 stored in bits

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 8f383c8..9af4a18 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -137,7 +137,7 @@ class Circuit:
             )
 
             if isinstance(op, Measurement):
-                if bits:
+                if bits and op.bits:
                     mapped_bits = [bit_map[qb] for qb in op.bits or []]
                     op.__class__(qubits=mapped_qubits) | mapped_bits
                     continue
-- 
2.43.0


From 2cf1e2d809dd8d2535394270ad27bc6ed3a319e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 21/37] fix: apply circuits containing controlled operations
 with several controls

---
 dwave/gate/circuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 9af4a18..056c0e7 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -150,7 +150,10 @@ class Circuit:
             if isinstance(op, ParametricOperation):
                 op.__class__(op.parameters, qubits=mapped_qubits)
             elif isinstance(op, ControlledOperation):
-                op.__class__(*mapped_qubits)
+                op.__class__(
+                    control=[qubit_map[qb] for qb in op.control or []],
+                    target=[qubit_map[qb] for qb in op.target or []],
+                )
             else:
                 op.__class__(qubits=mapped_qubits)
 
-- 
2.43.0


From 2230873217ce4a769ae4fa6dddcbbb61ba7d6857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 22/37] fix: use the passed parameters when applying parametric
 circuits in parametric circuits

---
 dwave/gate/circuit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 056c0e7..05843e3 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -40,7 +40,7 @@ from typing import TYPE_CHECKING, Callable, ContextManager, NamedTuple, Optional
 import numpy as np
 
 from dwave.gate.mixedproperty import mixedproperty
-from dwave.gate.primitives import Bit, Qubit
+from dwave.gate.primitives import Bit, Qubit, Variable
 from dwave.gate.registers.registers import (
     ClassicalRegister,
     QuantumRegister,
@@ -148,7 +148,12 @@ class Circuit:
                     )
 
             if isinstance(op, ParametricOperation):
-                op.__class__(op.parameters, qubits=mapped_qubits)
+                # the variables are reset on context exit, so use their current values
+                parameters = [
+                    p.value if isinstance(p, Variable) and p.value is not None else p
+                    for p in op.parameters
+                ]
+                op.__class__(parameters, qubits=mapped_qubits)
             elif isinstance(op, ControlledOperation):
                 op.__class__(
                     control=[qubit_map[qb] for qb in op.control or []],
-- 
2.43.0


From 5152c9f5d1228e9fcb32742e4fb318bb5e7f1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 23/37] fix: keep operations conditional when applying circuits

---
 dwave/gate/circuit.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 05843e3..0676a00 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -122,8 +122,7 @@ class Circuit:
             if len(bits) != len(self.bits):
                 raise ValueError(f"Circuit requires {len(self.bits)} bits, got {len(bits)}.")
 
-            bit_map = dict(zip(self.bits, bits))
-
+        bit_map = dict(zip(self.bits, bits or []))
         qubit_map = dict(zip(self.qubits, qubits))
 
         for op in self.circuit:
@@ -137,30 +136,33 @@ class Circuit:
             )
 
             if isinstance(op, Measurement):
+                mapped_op = op.__class__(qubits=mapped_qubits)
                 if bits and op.bits:
                     mapped_bits = [bit_map[qb] for qb in op.bits or []]
-                    op.__class__(qubits=mapped_qubits) | mapped_bits
-                    continue
+                    mapped_op | mapped_bits
                 else:
                     warnings.warn(
                         "Measurements not stored in circuit bits. "
                         "Must pass bits to circuit call."
                     )
-
-            if isinstance(op, ParametricOperation):
+            elif isinstance(op, ParametricOperation):
                 # the variables are reset on context exit, so use their current values
                 parameters = [
                     p.value if isinstance(p, Variable) and p.value is not None else p
                     for p in op.parameters
                 ]
-                op.__class__(parameters, qubits=mapped_qubits)
+                mapped_op = op.__class__(parameters, qubits=mapped_qubits)
             elif isinstance(op, ControlledOperation):
-                op.__class__(
+                mapped_op = op.__class__(
                     control=[qubit_map[qb] for qb in op.control or []],
                     target=[qubit_map[qb] for qb in op.target or []],
                 )
             else:
-                op.__class__(qubits=mapped_qubits)
+                mapped_op = op.__class__(qubits=mapped_qubits)
+
+            # keep operations conditional on the corresponding bits
+            if op._cond:
+                mapped_op.conditional([bit_map.get(b, b) for b in op._cond])
 
     @property
     def qregisters(self) -> Mapping[Hashable, QuantumRegister]:
-- 
2.43.0


From 2400ae7eabe1902e34154c70fa26c5fae7b481aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 24/37] fix: only reset variables on context exit if applied
 within a context

---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 0676a00..3fa778f 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -727,8 +727,8 @@ class ParametricCircuit(Circuit):
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
 
-        # delay reset variables function call to on context exit
-        CircuitContext.on_exit_functions.append(self.reset_variables)
+            # delay reset variables function call to on context exit
+            CircuitContext.on_exit_functions.append(self.reset_variables)
 
         return super().__call__(qubits=qubits, bits=bits)
 
-- 
2.43.0


From 2c7d5fb1b88b0cc88475c67ad93bf2a1e8fef3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 25/37] fix: evaluated parametric operations stay conditional
 on the bits of the circuit

---
 dwave/gate/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 3fa778f..ba471dd 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -759,7 +759,8 @@ class ParametricCircuit(Circuit):
         for i, op in enumerate(circuit.circuit):
             eval = getattr(op, "eval", None)
             params = parameters[i] if parameters else None
-            circuit.circuit[i] = eval(params, inplace) if eval else op
+            # 'circuit' is already a copy if not inplace
+            circuit.circuit[i] = eval(params, inplace=True) if eval else op
 
         return circuit
 
-- 
2.43.0


From 3216d2d9975bde4f1a116346abfe366e44d93659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 26/37] fix: exiting a nested frozen context does not unfreeze
 the outer one

---
 dwave/gate/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index ba471dd..d4d7425 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -863,10 +863,11 @@ class CircuitContext:
             def __enter__(self) -> None:
                 if cls.active_context is None:
                     raise CircuitError("Can only freeze active context. No active context found.")
+                self._frozen = cls.active_context._frozen
                 cls.active_context._frozen = True
 
             def __exit__(self, _, __, ___) -> None:
-                cls.active_context._frozen = False
+                cls.active_context._frozen = self._frozen
 
         return FrozenContext()
 
-- 
2.43.0


From 0c2c074c1dcaa6a16492172e5699e19a39c6db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 27/37] fix: search only the requested register also if its
 label is falsy

---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index d4d7425..55cb1c8 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -500,7 +500,7 @@ class Circuit:
             Qubit: Qubit with the specified label. If there are several with the same name,
             only the first occuring qubit will be returned unless ``return_all`` is ``True``.
         """
-        if qreg_label:
+        if qreg_label is not None:
             qregisters = self.qregisters[qreg_label]
         else:
             qregisters = itertools.chain.from_iterable(self.qregisters.values())
@@ -556,7 +556,7 @@ class Circuit:
             Bit: Bit with the specified label. If there are several with the same name,
             only the first occuring bit will be returned unless ``return_all`` is ``True``.
         """
-        if creg_label:
+        if creg_label is not None:
             cregisters = self.cregisters[creg_label]
         else:
             cregisters = itertools.chain.from_iterable(self.cregisters.values())
-- 
2.43.0


From b587592aa4a737ec0dcaf2c87ed6bc26d34b70f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 28/37] fix: define each gate only once in OpenQASM

---
 dwave/gate/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 55cb1c8..acc85a1 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -649,7 +649,9 @@ class Circuit:
 
         for op in self.circuit:
             if gate_definitions and hasattr(op, "_qasm_decl"):
-                header_str += "\n" + getattr(op, "_qasm_decl") + "\n"
+                # each gate should only be defined once
+                if getattr(op, "_qasm_decl") not in header_str:
+                    header_str += "\n" + getattr(op, "_qasm_decl") + "\n"
             qasm_str += op.to_qasm(mapping) + ";\n"
 
         return header_str.strip() + "\n\n" + qasm_str.strip()
-- 
2.43.0


From 56b5a9aeee9ef77952f332ec15cb127dcdeb23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 29/37] fix: density matrices are normalized by their trace

---
 dwave/gate/circuit.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index acc85a1..f24c580 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -280,7 +280,7 @@ class Circuit:
             raise CircuitError("State already set. Use 'force=True' to force set new state.")
 
         if normalize:
-            state = state / np.linalg.norm(state)
+            state = state / self._state_norm(state)
 
         self._assert_state(state)
 
@@ -292,13 +292,20 @@ class Circuit:
             self._state = None
             self._density_matrix = state
 
+    @staticmethod
+    def _state_norm(state: NDArray) -> complex:
+        """The norm of a state vector or the trace of a density matrix."""
+        if state.ndim == 2:
+            return np.trace(state)
+        return np.linalg.norm(state)
+
     def _assert_state(self, state: NDArray) -> None:
         """Check whether a state is the correct shape and is normalized."""
         size = 2 << (self.num_qubits - 1)
         if state.shape != (size,) and state.shape != (size, size):
             raise ValueError(f"State has incorrect shape. Should have size {size}.")
 
-        if not np.isclose(np.linalg.norm(state), 1):
+        if not np.isclose(self._state_norm(state), 1):
             raise ValueError("State is not normalized.")
 
     @property
-- 
2.43.0


From b233fa7958395c0d4d61762bcca6c7f09c3867f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 30/37] fix: raise an error when simulating operations with
 more than two controls

---
 dwave/gate/simulator/simulator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 8dcf863..b979470 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -120,6 +120,11 @@ def apply_instruction(
                 num_qubits, state, gate, target, control0, control1,
                 little_endian=little_endian,
             )
+
+        else:
+            raise ValueError(
+                f"simulator only supports one or two control qubits, got {op.num_control}: {op.name}"
+            )
     else:
         # apply single qubit gate
         if op.num_qubits != 1:
-- 
2.43.0


From 8c888ea75ab7016a972d051e087082940e1bbdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 31/37] fix: little-endian density matrix simulation

---
 dwave/gate/simulator/simulator.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index b979470..8033292 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -170,7 +170,7 @@ def simulate(
     rng = np.random.default_rng(rng_seed)
 
     if mixed_state:
-        state = _simulate_circuit_density_matrix(circuit, rng)
+        state = _simulate_circuit_density_matrix(circuit, rng, little_endian)
     else:
         state = np.zeros(1 << num_qubits, dtype=np.complex128)
         state[0] = 1
@@ -246,11 +246,14 @@ def _simulate_circuit_density_matrix(
         else:
             # first apply the gate normally
             targets = [circuit.qubits.index(qb) for qb in op.qubits]
+            virtual_targets = [t + num_qubits for t in targets]
+            if little_endian:
+                # the most significant qubits, i.e., the rows of the density matrix, come last
+                targets, virtual_targets = virtual_targets, targets
             apply_instruction(
                 num_virtual_qubits, state, op, targets, little_endian, rng
             )
             # then apply conjugate transpose to corresponding virtual qubit
-            virtual_targets = [t + num_qubits for t in targets]
             apply_instruction(
                 num_virtual_qubits, state, op, virtual_targets, little_endian, rng,
                 conjugate_gate=True,
-- 
2.43.0


From 70374abeb38b1da1e436fc7aed0562ecdeefc5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 32/37] fix: simulate operations with real or non-contiguous
 matrices

---
 dwave/gate/simulator/simulator.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 8033292..bf5dd37 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -101,7 +101,8 @@ def apply_instruction(
             gate = op.target_operation.matrix
         assert gate.shape == (2, 2), (op, gate)
         if conjugate_gate:
-            gate = np.ascontiguousarray(gate.conjugate())
+            gate = gate.conjugate()
+        gate = np.ascontiguousarray(gate, dtype=np.complex128)
 
         if op.num_control == 1:
             target = targets[1]
@@ -133,7 +134,8 @@ def apply_instruction(
             )
         gate = op.matrix
         if conjugate_gate:
-            gate = np.ascontiguousarray(gate.conjugate())
+            gate = gate.conjugate()
+        gate = np.ascontiguousarray(gate, dtype=np.complex128)
 
         target = targets[0]
         single_qubit(num_qubits, state, gate, target, little_endian=little_endian)
-- 
2.43.0


From 2f8349499445fb1e75958399337e6f1c96cdaf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 33/37] fix: raise an error when sampling a qubit outside of
 the state

---
 dwave/gate/simulator/simulator.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index bf5dd37..9ffc914 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -206,6 +206,9 @@ def sample_qubit(
     """
     cdef int num_qubits = round(np.log2(state.shape[0]))
 
+    if not 0 <= qubit < num_qubits:
+        raise ValueError(f"Cannot sample qubit {qubit}. State has only {num_qubits} qubits.")
+
     return measurement_computational_basis(
         num_qubits,
         state,
-- 
2.43.0


From 687fa0ca5a41058d69aedae3c8e3269a019b6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 34/37] fix: load QIR programs with qubits that have no
 operations

---
 dwave/gate/qir/loader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 3e84ab0..b45fae9 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -90,6 +90,10 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
     meas_bits = []
 
     for func in module.functions:
+        # add all qubits required by the program, including those without operations
+        for _ in range(circuit.num_qubits, pyqir.required_num_qubits(func) or 0):
+            circuit.add_qubit()
+
         ret_set = False
         for block in func.basic_blocks:
             # if return has been set, then ignore rest of blocks
@@ -141,6 +145,9 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
+    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
+        circuit.add_qubit()
+
     for _ in range(circuit.num_bits, max(bits or [0]) + 1):
         circuit.add_bit()
 
-- 
2.43.0


From 0b39aed82d221fd45eebdaf294fb1d7e5103bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 35/37] fix: update control and target when setting qubits of
 controlled operations

---
 dwave/gate/operations/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 1269c8a..d6091cc 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -572,6 +572,15 @@ class ControlledOperation(Operation):
         )
         return matrix
 
+    @Operation.qubits.setter
+    def qubits(self, qubits: Sequence[Qubit]) -> None:
+        """Set the qubits that the operation should be applied to."""
+        Operation.qubits.fset(self, qubits)
+
+        # the control and target qubits must correspond to the new qubits
+        self._control = self._qubits[: self.num_control]
+        self._target = self._qubits[len(self._control) :]
+
     @property
     def control(self) -> Optional[tuple[Qubit]]:
         """Control qubit(s)."""
-- 
2.43.0


From 3de15e7a402e497282b47efa7c50ce8908ecefc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 36/37] fix: keep evaluated variables of parametric controlled
 operations

---
 dwave/gate/operations/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d6091cc..9510201 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -634,7 +634,6 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
     ):
         # ControlledOperation.__init__(self, control, target, **kwargs)
         super().__init__(control, target, parameters=parameters, **kwargs)
-        self._parameters = self._check_parameters(parameters)
 
     def __call__(
         self, control: Optional[Sequence[Qubit]] = None, target: Optional[Sequence[Qubit]] = None
-- 
2.43.0


From d2bc6d34578783dbdd9e7ce2805a9e41a01ea5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 37/37] fix: load QIR operations with several parameters

---
 dwave/gate/qir/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index b45fae9..0aa6ad8 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -128,7 +128,9 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
 
                     circuit.unlock()
                     with circuit.context as reg:
-                        getattr(ops, op_name)(*params, qubits=[reg.q[qubit] for qubit in qubits])
+                        # all parameters are passed as a single sequence
+                        args = [params] if params else []
+                        getattr(ops, op_name)(*args, qubits=[reg.q[qubit] for qubit in qubits])
 
     # finally, add measurements (if any) to circuit
     if meas_qubits:
-- 
2.43.0

