From 925739afb5e9961485726ba98d991703168b1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 01/51] fix: to_unitary of a circuit without operations is the
 identity

---
 src/orquestra/quantum/circuits/_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index be09205..9734a47 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -133,6 +133,9 @@ class Circuit:
                     "be converted to a unitary matrix."
                 )
 
+        if not lifted_matrices:
+            return np.eye(2**self.n_qubits)
+
         return reduce(operator.matmul, lifted_matrices)
 
     def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
-- 
2.43.0


From 04d49531b96b73e4d86b3d4bfd6ff7516217576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 02/51] fix: PauliSum equality matches terms up to tolerance
 and recognises zero

---
 .../quantum/operators/_pauli_operators.py     | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index de757fd..e7cad41 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -447,8 +447,7 @@ class PauliSum:
         _validate_type(other)
 
         if isinstance(other, (int, float, complex)):
-            constant_term = PauliTerm("I0", complex(other))
-            return self == PauliSum([constant_term])
+            return self == PauliTerm("I0", complex(other))
 
         if isinstance(other, PauliTerm):
             if len(self) == 0:
@@ -459,7 +458,23 @@ class PauliSum:
         if len(self) != len(other):
             return False
 
-        return set(self.terms) == set(other.terms)
+        # Terms are compared up to a tolerance, so they have to be matched by `==`.
+        # Hashes are not suitable for it, two equal coefficients can be rounded
+        # to different values.
+        unmatched: Dict[Hashable, List[PauliTerm]] = {}
+        for term in other.terms:
+            unmatched.setdefault(term.operations, []).append(term)
+
+        for term in self.terms:
+            candidates = unmatched.get(term.operations, [])
+            for i, candidate in enumerate(candidates):
+                if term == candidate:
+                    del candidates[i]
+                    break
+            else:
+                return False
+
+        return True
 
     def __add__(self, other: Union[PauliRepresentation, complex]) -> "PauliSum":
         _validate_type(other)
-- 
2.43.0


From 40c28d936544a60cad7e8968953031352503842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 03/51] fix: numeric gate parameters are deserialised to the
 exact Python number

---
 src/orquestra/quantum/circuits/_serde.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 2297785..d35d861 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -1,6 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
+import ast
 import json
 import re
 from functools import singledispatch
@@ -37,6 +38,13 @@ def _make_symbols_map(
 
 
 def deserialize_expr(expr_str, symbol_names):
+    try:
+        # Python numbers have to be restored exactly, sympy would round decimal literals
+        # to its own precision.
+        return ast.literal_eval(expr_str)
+    except (SyntaxError, ValueError):
+        pass
+
     symbols_map = _make_symbols_map(symbol_names)
     return sympy.sympify(expr_str, locals=symbols_map)
 
-- 
2.43.0


From cbd7fd294bc9b952c39f16b092cda0411eff8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 04/51] fix: gate parameters mixing plain, indexed and
 sympy-shadowing symbols survive deserialisation

---
 src/orquestra/quantum/circuits/_serde.py | 44 ++++++++++++------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index d35d861..1ebc157 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -5,7 +5,7 @@ import ast
 import json
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Union
+from typing import Iterable, List, Mapping
 
 import sympy
 
@@ -18,25 +18,6 @@ def serialize_expr(expr: sympy.Expr):
     return str(expr)
 
 
-def _make_symbols_map(
-    symbol_names: Iterable[str],
-) -> Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]]:
-    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
-    for name in symbol_names:
-        # Check if the symbol name has brackets, such as "x[4]". Such symbol names will
-        # occur in circuits imported from Qiskit when the Qiskit circuit was
-        # parameterized using a Qiskit ParameterVector.
-        match = re.search(r"^(.*)\[([0-9]+)\]$", name)
-        if match:
-            symbols_map.setdefault(match.group(1), {})[
-                int(match.group(2))
-            ] = sympy.Symbol(name)
-        else:
-            symbols_map[name] = sympy.Symbol(name)
-
-    return symbols_map
-
-
 def deserialize_expr(expr_str, symbol_names):
     try:
         # Python numbers have to be restored exactly, sympy would round decimal literals
@@ -45,8 +26,27 @@ def deserialize_expr(expr_str, symbol_names):
     except (SyntaxError, ValueError):
         pass
 
-    symbols_map = _make_symbols_map(symbol_names)
-    return sympy.sympify(expr_str, locals=symbols_map)
+    # Symbols are replaced with placeholders before parsing. This is because:
+    # - symbol names can have brackets, such as "x[4]". Such symbol names will occur in
+    #   circuits imported from Qiskit when the Qiskit circuit was parameterized using
+    #   a Qiskit ParameterVector,
+    # - symbols can have the same name as an object used by sympy's parser.
+    placeholders = {name: f"_symbol_{i}" for i, name in enumerate(symbol_names)}
+    if placeholders:
+        names = sorted(placeholders, key=len, reverse=True)
+        expr_str = re.sub(
+            # A name followed by a bracket is a function call, not a symbol.
+            rf"(?<![\w.])({'|'.join(map(re.escape, names))})(?![\w(])",
+            lambda match: placeholders[match.group(1)],
+            expr_str,
+        )
+    return sympy.sympify(
+        expr_str,
+        locals={
+            placeholder: sympy.Symbol(name)
+            for name, placeholder in placeholders.items()
+        },
+    )
 
 
 def builtin_gate_by_name(name):
-- 
2.43.0


From 8bd8201ac32a849762dd7c6da3d3c33e85f97ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 05/51] fix: symbols named like sympy constants are not
 confused with them when serialised

---
 src/orquestra/quantum/circuits/_serde.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 1ebc157..51300b6 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -14,7 +14,25 @@ from ..utils import ensure_open
 from . import _builtin_gates, _circuit, _gates
 
 
+# Alternative texts of constants, which do not mention the constant's name.
+_CONSTANT_TEXTS = {
+    sympy.pi: "acos(-1)",
+    sympy.E: "exp(1)",
+    sympy.I: "sqrt(-1)",
+}
+
+
 def serialize_expr(expr: sympy.Expr):
+    if isinstance(expr, sympy.Expr):
+        # A constant would be mistaken for a symbol that has the same name.
+        symbol_names = {str(symbol) for symbol in expr.free_symbols}
+        expr = expr.xreplace(
+            {
+                constant: sympy.Symbol(text)
+                for constant, text in _CONSTANT_TEXTS.items()
+                if str(constant) in symbol_names
+            }
+        )
     return str(expr)
 
 
-- 
2.43.0


From fd87e4726476e4ee9bc4a834efcc71a7f8bb54c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 06/51] fix: custom gate parameters are deserialised with the
 gate's own free symbols

---
 src/orquestra/quantum/circuits/_serde.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 51300b6..86bf1e6 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -309,9 +309,11 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
     return gate_def(
-        *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
+        *[
+            deserialize_expr(param, dict_.get("free_symbols", []))
+            for param in dict_.get("params", [])
+        ]
     )
 
 
-- 
2.43.0


From ebd32797d12e205c311ed82805b233ea94c4c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 07/51] fix: definitions of custom gates used under wrappers
 are collected and serialised

---
 src/orquestra/quantum/circuits/_circuit.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 9734a47..ae240c1 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -25,9 +25,16 @@ def _circuit_size_by_operations(operations):
     )
 
 
-def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+def _innermost_gate(gate):
+    """Gate that's left after stripping wrappers like control or dagger."""
+    while hasattr(gate, "wrapped_gate"):
+        gate = gate.wrapped_gate
+    return gate
+
+
+def _is_custom_gate(gate):
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -97,10 +104,11 @@ class Circuit:
         return _append_to_circuit(other, self)
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
+        gates = (_innermost_gate(operation.gate) for operation in self.operations)
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
-            for operation in self.operations
-            if _operation_uses_custom_gate(operation)
+            gate.matrix_factory.gate_definition
+            for gate in gates
+            if _is_custom_gate(gate)
         )
         unique_operation_dict = {}
         for gate_def in custom_gate_definitions:
-- 
2.43.0


From cc45a8868e810d08a3008ca09c2929d783e5dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 08/51] fix: builtin_gate_by_name finds only gates, not other
 names of its module

---
 src/orquestra/quantum/circuits/_builtin_gates.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_builtin_gates.py b/src/orquestra/quantum/circuits/_builtin_gates.py
index aa60603..5fb1b4b 100644
--- a/src/orquestra/quantum/circuits/_builtin_gates.py
+++ b/src/orquestra/quantum/circuits/_builtin_gates.py
@@ -20,6 +20,7 @@ def make_parametric_gate_prototype(
             name, matrix_factory, gate_parameters, num_qubits, is_hermitian
         )
 
+    _factory.gate_name = name  # type: ignore
     return _factory
 
 
@@ -29,7 +30,13 @@ def builtin_gate_by_name(name) -> GateRef:
     Raises:
         KeyError: when there's no built-in gate for this name.
     """
-    return globals()[name]
+    gate_ref = globals()[name]
+    if not isinstance(gate_ref, _gates.MatrixFactoryGate) and not hasattr(
+        gate_ref, "gate_name"
+    ):
+        # Other objects living in this module aren't gates.
+        raise KeyError(name)
+    return gate_ref
 
 
 # --- non-parametric, single qubit gates ---
-- 
2.43.0


From 726c20558a942ff15f68e080ac7b5d74e2c640de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 09/51] fix: binding an expression substitutes all symbols
 simultaneously

---
 src/orquestra/quantum/circuits/_operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_operations.py b/src/orquestra/quantum/circuits/_operations.py
index 284598f..56fae2f 100644
--- a/src/orquestra/quantum/circuits/_operations.py
+++ b/src/orquestra/quantum/circuits/_operations.py
@@ -74,7 +74,8 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    # Without `simultaneous` values would be affected by the remaining substitutions.
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From afb61eff6335ee55b7f91f20b9c0a3b4d07991f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 10/51] fix: custom gate parameters are substituted into the
 matrix simultaneously

---
 src/orquestra/quantum/circuits/_gates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 6e69e8b..7961e24 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -514,7 +514,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
-- 
2.43.0


From eb8c2b61c68eb943e3fcdb3386b59674d247e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 11/51] fix: ResetOperation can be bound

---
 src/orquestra/quantum/circuits/_wavefunction_operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_wavefunction_operations.py b/src/orquestra/quantum/circuits/_wavefunction_operations.py
index be86d14..704d170 100644
--- a/src/orquestra/quantum/circuits/_wavefunction_operations.py
+++ b/src/orquestra/quantum/circuits/_wavefunction_operations.py
@@ -1,7 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from functools import singledispatch
 from numbers import Complex
 from typing import Iterable, Tuple
@@ -105,7 +105,9 @@ class ResetOperation:
         )
 
     def replace_params(self, new_params: Tuple[Parameter, ...]) -> "ResetOperation":
-        return replace(self, params=new_params)
+        operation = type(self)(*self.qubit_indices)
+        operation.params = new_params
+        return operation
 
     def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
         raise RuntimeError(
-- 
2.43.0


From 55f69825fe18575fd3495ac4822a37bed38089bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:47 +0000
Subject: [PATCH 12/51] fix: controlled circuit keeps the idle qubits of the
 original

---
 src/orquestra/quantum/circuits/_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index ae240c1..e6181b9 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -199,7 +199,7 @@ class Circuit:
             new_indices_with_control = (control_index, *new_indices)
             c_ops.append(controlled_op(*new_indices_with_control))
 
-        return Circuit(c_ops)
+        return Circuit(c_ops, n_qubits=max(self.n_qubits, control_index) + 1)
 
 
 @singledispatch
-- 
2.43.0


From 5b9e4cbfb2b9327ea5c2528cc846b4149a0c779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 13/51] fix: sparse matrix of the empty Pauli sum

---
 .../quantum/operators/_openfermion_utils/sparse_tools.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
index 94bd0f1..ecc8e1b 100644
--- a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
+++ b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
@@ -96,6 +96,10 @@ def get_sparse_operator(operator: PauliRepresentation, n_qubits: Optional[int] =
         column_list.append(column)
         row_list.append(row)
 
+    # The empty sum is the zero operator.
+    if not values_list:
+        return scipy.sparse.csc_matrix((n_hilbert, n_hilbert), dtype=complex)
+
     # Create sparse operator.
     values_list = numpy.concatenate(values_list)
     row_list = numpy.concatenate(row_list)
-- 
2.43.0


From 5c776d2b6ff6dd425297ebec7aa818bf3d60516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 14/51] fix: expand 1x1 matrices in the Pauli basis

---
 src/orquestra/quantum/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 2252ec5..46720bb 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -75,7 +75,7 @@ def dec2bin(number: int, length: int) -> List[int]:
 
     bit_str = bin(number)
     bit_str = bit_str[2 : len(bit_str)]  # chop off the first two chars
-    bit_string = [int(x) for x in list(bit_str)]
+    bit_string = [int(x) for x in list(bit_str)] if number else []
     if len(bit_string) < length:
         len_zeros = length - len(bit_string)
         bit_string = [int(x) for x in list(np.zeros(len_zeros))] + bit_string
-- 
2.43.0


From 4faa8c945860f01c560ddf9fff2074b5625dee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 15/51] fix: load functions accept every kind of path, not only
 str

---
 src/orquestra/quantum/circuits/layouts.py     | 23 +++++++------------
 .../quantum/measurements/measurements.py      | 13 ++++++-----
 src/orquestra/quantum/operators/_io.py        | 15 ++++--------
 src/orquestra/quantum/utils.py                | 14 ++++-------
 4 files changed, 24 insertions(+), 41 deletions(-)

diff --git a/src/orquestra/quantum/circuits/layouts.py b/src/orquestra/quantum/circuits/layouts.py
index 7cc055e..be58b2f 100644
--- a/src/orquestra/quantum/circuits/layouts.py
+++ b/src/orquestra/quantum/circuits/layouts.py
@@ -6,6 +6,8 @@ from typing import Dict, List, TextIO, Tuple
 
 import numpy as np
 
+from ..utils import ensure_open
+
 
 class CircuitLayers:
     """A class representing a pattern of circuit layers, consisting of lists,
@@ -52,11 +54,8 @@ def load_circuit_layers(file: TextIO) -> CircuitLayers:
         (circuit.CircuitLayers)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitLayers.from_dict(data)
 
@@ -82,11 +81,8 @@ def load_circuit_ordering(file):
         ordering (list)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["ordering"]
 
@@ -134,11 +130,8 @@ def load_circuit_connectivity(file):
         (orquestra.quantum.circuit.CircuitConnectivity)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitConnectivity.from_dict(data)
 
diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 4095067..74b5873 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -13,7 +13,11 @@ import numpy as np
 from ..distributions import MeasurementOutcomeDistribution
 from ..operators import PauliRepresentation
 from ..typing import AnyPath
-from ..utils import convert_tuples_to_bitstrings, sample_from_probability_distribution
+from ..utils import (
+    convert_tuples_to_bitstrings,
+    ensure_open,
+    sample_from_probability_distribution,
+)
 from .expectation_values import ExpectationValues
 from .parities import check_parity_of_vector
 
@@ -213,11 +217,8 @@ class Measurements:
         Args:
             file (str or file-like object): the name of the file, or a file-like object
         """
-        if isinstance(file, str):
-            with open(file, "r") as f:
-                data = json.load(f)
-        else:
-            data = json.load(file)
+        with ensure_open(file) as f:
+            data = json.load(f)
 
         bitstrings = []
         for bitstring in data["bitstrings"]:
diff --git a/src/orquestra/quantum/operators/_io.py b/src/orquestra/quantum/operators/_io.py
index 142d622..ac162e5 100644
--- a/src/orquestra/quantum/operators/_io.py
+++ b/src/orquestra/quantum/operators/_io.py
@@ -6,6 +6,7 @@ from typing import Any, Dict, List, Tuple
 import rapidjson as json
 
 from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
 from ._pauli_operators import PauliRepresentation, PauliSum, PauliTerm
 
 
@@ -76,11 +77,8 @@ def load_operator(file: LoadSource) -> PauliSum:
         op: the operator.
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return convert_dict_to_op(data)
 
@@ -109,11 +107,8 @@ def load_operator_set(file: LoadSource) -> List[PauliSum]:
     Returns:
         operator_set: a list of QubitOperator objects
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     operator_set = []
     for operator_dict in data["operators"]:
diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 46720bb..6a759b9 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -332,11 +332,8 @@ def load_value_estimate(file: LoadSource) -> ValueEstimate:
         array (numpy.array): the array
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return ValueEstimate.from_dict(data)
 
@@ -364,11 +361,8 @@ def load_list(file: LoadSource) -> List:
         array (list): the list
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["list"]
 
-- 
2.43.0


From 3644756002673ca659e08df99c453e4d919401ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 16/51] fix: load measurement estimates saved without
 frame_meas, also from open files

---
 src/orquestra/quantum/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 6a759b9..92c1ad1 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -451,22 +451,27 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: LoadSource,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
-        filename: the name of the file
+        filename: the name of the file, or a file-like object.
 
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), or None
+            if they were not saved
     """
 
-    with open(filename, "r") as f:
+    with ensure_open(filename) as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = None
+    if "frame_meas" in data:
+        frame_meas = convert_dict_to_array(data["frame_meas"])
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From 6c8aec5ff583a16f07ed4ea1ec81a0c4b8ec16c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 17/51] fix: parse the printed form of constant Pauli terms

---
 src/orquestra/quantum/operators/_pauli_operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index e7cad41..68c300e 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -120,6 +120,9 @@ def _parse_operators_and_coefficient(
         coef = None
         operators_strs = parts
 
+    # A constant term is printed with an identity that has no qubit index
+    operators_strs = [op_str for op_str in operators_strs if op_str.upper() != "I"]
+
     operators_dict = dict([_parse_operator(op_str) for op_str in operators_strs])
 
     if len(operators_dict) != len(operators_strs):
-- 
2.43.0


From 895bb4e8960d3eaa8f76fa9a9d9c794829852c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:21 +0000
Subject: [PATCH 18/51] fix: keep empty lists of correlations and covariances
 when saving

---
 src/orquestra/quantum/measurements/expectation_values.py | 8 ++++----
 src/orquestra/quantum/measurements/parities.py           | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/measurements/expectation_values.py b/src/orquestra/quantum/measurements/expectation_values.py
index 70d588d..22192ea 100644
--- a/src/orquestra/quantum/measurements/expectation_values.py
+++ b/src/orquestra/quantum/measurements/expectation_values.py
@@ -53,12 +53,12 @@ class ExpectationValues:
 
         data["expectation_values"] = convert_array_to_dict(self.values)
 
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = []
             for correlation_matrix in self.correlations:
                 data["correlations"].append(convert_array_to_dict(correlation_matrix))
 
-        if self.estimator_covariances:
+        if self.estimator_covariances is not None:
             data["estimator_covariances"] = []
             for covariance_matrix in self.estimator_covariances:
                 data["estimator_covariances"].append(
@@ -73,13 +73,13 @@ class ExpectationValues:
 
         expectation_values = convert_dict_to_array(dictionary["expectation_values"])
         correlations: Optional[List] = None
-        if dictionary.get("correlations"):
+        if dictionary.get("correlations") is not None:
             correlations = []
             for correlation_matrix in cast(Iterable, dictionary.get("correlations")):
                 correlations.append(convert_dict_to_array(correlation_matrix))
 
         estimator_covariances: Union[List, None] = None
-        if dictionary.get("estimator_covariances"):
+        if dictionary.get("estimator_covariances") is not None:
             estimator_covariances = []
             for covariance_matrix in cast(
                 Iterable, dictionary.get("estimator_covariances")
diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index be25888..59cb65a 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -41,7 +41,7 @@ class Parities:
 
     def to_dict(self) -> dict:
         data: Dict[str, Any] = {"values": convert_array_to_dict(self.values)}
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = [
                 convert_array_to_dict(arr) for arr in self.correlations
             ]
@@ -50,7 +50,7 @@ class Parities:
     @classmethod
     def from_dict(cls, data: dict):
         values = convert_dict_to_array(data["values"])
-        if data.get("correlations"):
+        if data.get("correlations") is not None:
             correlations: Optional[List] = [
                 convert_dict_to_array(arr) for arr in data["correlations"]
             ]
-- 
2.43.0


From 0cb620d65d47c9e3be246978e929ff5ac6be92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:18 +0000
Subject: [PATCH 19/51] fix: keep the shape of empty arrays when saving them

---
 src/orquestra/quantum/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 92c1ad1..559b615 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -33,6 +33,9 @@ def convert_dict_to_array(dictionary: dict) -> np.ndarray:
     if dictionary.get("imag"):
         array = array + 1j * np.array(dictionary["imag"])
 
+    if "shape" in dictionary:
+        array = array.reshape(dictionary["shape"])
+
     return array
 
 
@@ -53,6 +56,10 @@ def convert_array_to_dict(array: np.ndarray) -> dict:
     else:
         dictionary["real"] = array.tolist()
 
+    # Nested lists can't represent the shape of arrays such as an empty matrix
+    if array.size == 0 and array.ndim > 1:
+        dictionary["shape"] = list(array.shape)
+
     return dictionary
 
 
-- 
2.43.0


From 2cb9033174005c998ddbf0364145dcac630deada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:50 +0000
Subject: [PATCH 20/51] fix: failed wavefunction assignments leave the object
 as it was

---
 src/orquestra/quantum/wavefunction.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 96c7f9d..cac515b 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -119,16 +119,21 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        # The assignment is made on a copy, so that whenever it fails this object is
+        # left as it was.
+        updated = self._amplitude_vector.copy()
+        updated[idx] = val
+
+        if isinstance(updated, Matrix) and not updated.free_symbols:
+            updated = _cast_sympy_matrix_to_numpy(updated, complex=True)
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            self._check_normalization(updated)
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        self._amplitude_vector = updated
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From 7dd8d74d9aa9c6ae4a8011c6b8335027a98a888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:22 +0000
Subject: [PATCH 21/51] fix: expand large sample sizes with integer arithmetic

---
 src/orquestra/quantum/circuits/_itertools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_itertools.py b/src/orquestra/quantum/circuits/_itertools.py
index 33c7a15..6eb55e2 100644
--- a/src/orquestra/quantum/circuits/_itertools.py
+++ b/src/orquestra/quantum/circuits/_itertools.py
@@ -1,7 +1,6 @@
 from collections import Counter
 from functools import reduce
 from itertools import islice
-from math import ceil
 from typing import Dict, Iterable, List, Sequence, Tuple, TypeVar
 
 T = TypeVar("T")
@@ -79,7 +78,8 @@ def split_into_batches(
 
 
 def _expand_sample_size(n_samples, max_sample_size):
-    multiplicities = ceil(n_samples / max_sample_size)
+    # Ceiling of the exact quotient, float division is inexact for large integers
+    multiplicities = -(-n_samples // max_sample_size)
     new_n_samples = (
         multiplicities * (max_sample_size,)
         if n_samples % max_sample_size == 0
-- 
2.43.0


From 80cdbd8fc3b779906f99153eacf7c8e93c9f08c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:11 +0000
Subject: [PATCH 22/51] fix: scale_and_discretize is exact for large totals

---
 src/orquestra/quantum/utils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 559b615..76db575 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -7,7 +7,9 @@ import json
 import os
 import sys
 from contextlib import contextmanager
+from fractions import Fraction
 from functools import lru_cache
+from math import floor
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
 
 import numpy as np
@@ -499,20 +501,22 @@ def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
             of the input list elements.
     """
 
-    # Note: combining the two lines below breaks type checking; see mypy #6040
-    value_sum = sum(values)
-    scale_factor = total / value_sum
+    # Exact arithmetic, floats can't represent all integers above 2**53
+    weights = [
+        Fraction(value.item() if isinstance(value, np.generic) else value)
+        for value in values
+    ]
+    scale_factor = int(total) / sum(weights)
 
-    result = [np.floor(value * scale_factor) for value in values]
+    result = [floor(weight * scale_factor) for weight in weights]
     remainders = [
-        value * scale_factor - np.floor(value * scale_factor) for value in values
+        float(weight * scale_factor - floored)
+        for weight, floored in zip(weights, result)
     ]
     indexes_sorted_by_remainder = np.argsort(remainders)[::-1]
-    for index in range(int(round(total - sum(result)))):
+    for index in range(int(total) - sum(result)):
         result[indexes_sorted_by_remainder[index]] += 1
 
-    result = [int(value) for value in result]
-
     assert sum(result) == total, "The scaled list does not sum to the desired total."
 
     return result
-- 
2.43.0


From a4b53ba84ece6cd018fbf750160de0b95a8c5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 23/51] fix: tracker doesn't count batches rejected by the
 wrapped runner

---
 src/orquestra/quantum/runners/trackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/runners/trackers.py b/src/orquestra/quantum/runners/trackers.py
index fde4d58..58a99bc 100644
--- a/src/orquestra/quantum/runners/trackers.py
+++ b/src/orquestra/quantum/runners/trackers.py
@@ -57,9 +57,9 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
             circuits: The circuits to execute.
             n_samples: The number of samples to collect for each circuit.
         """
+        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         self._n_circuits_executed += len(circuits)
         self._n_jobs_executed += 1
-        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         for circuit, measurement in zip(circuits, measurements):
             self.record_raw_measurement_data(circuit, measurement)
         self.save_raw_data()
-- 
2.43.0


From 35f8d25483b301e57e40b99d56e25c9a59b7e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 24/51] fix: tracker counts the circuits run for outcome
 distributions

---
 src/orquestra/quantum/runners/trackers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/orquestra/quantum/runners/trackers.py b/src/orquestra/quantum/runners/trackers.py
index 58a99bc..e7233cc 100644
--- a/src/orquestra/quantum/runners/trackers.py
+++ b/src/orquestra/quantum/runners/trackers.py
@@ -103,6 +103,8 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
         distribution = self.inner_backend.get_measurement_outcome_distribution(
             circuit, n_samples
         )
+        self._n_circuits_executed += 1
+        self._n_jobs_executed += 1
         self.raw_data.append(
             {
                 "data_type": "measurement outcome distribution",
-- 
2.43.0


From af8799b774c5d9bfb873a802c7b8e49598eba765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 25/51] fix: reject non-positive sample counts for empty
 batches too

---
 src/orquestra/quantum/api/circuit_runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/api/circuit_runner.py b/src/orquestra/quantum/api/circuit_runner.py
index f12edeb..9801982 100644
--- a/src/orquestra/quantum/api/circuit_runner.py
+++ b/src/orquestra/quantum/api/circuit_runner.py
@@ -160,6 +160,9 @@ class BaseCircuitRunner(ABC, CircuitRunner):
             dedicated way of running circuits' batch, `_run_batch_and_measure`
             method.
         """
+        if isinstance(n_samples, int) and n_samples <= 0:
+            raise ValueError(f"Number of samples has to be positive, got {n_samples}")
+
         samples_per_circuit = (
             len(circuits_batch) * [n_samples]
             if isinstance(n_samples, int)
-- 
2.43.0


From 1b033a119630d15f6d8f7664a88982e465beccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:40 +0000
Subject: [PATCH 26/51] fix: bitstrings of circuits without qubits are empty

---
 src/orquestra/quantum/wavefunction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index cac515b..eda1e9a 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -211,8 +211,11 @@ class Wavefunction:
         return np.abs(self.amplitudes) ** 2
 
     def get_outcome_probs(self) -> Dict[str, float]:
+        # Without qubits, the only outcome is an empty bitstring (not "0")
+        n_qubits = self.n_qubits
         values = [
-            format(i, "0" + str(self.n_qubits) + "b")[::-1] for i in range(len(self))
+            format(i, "0" + str(n_qubits) + "b")[:n_qubits][::-1]
+            for i in range(len(self))
         ]
 
         probs = self.get_probabilities()
-- 
2.43.0


From e4ae31f77c7f454062463b4735acc7f7740c30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:40 +0000
Subject: [PATCH 27/51] fix: statistics of shots of circuits without qubits

---
 src/orquestra/quantum/measurements/measurements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 74b5873..f7a7587 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -36,10 +36,11 @@ def convert_bitstring_to_int(bitstring: Sequence[int]) -> int:
 
 def _convert_bitstrings_to_vector(bitstrings: Iterable[str]) -> np.ndarray:
     """Converts bitstrings to vector so parity can be checked."""
-    n_qubits = len([*bitstrings][0])
+    bitstrings = [*bitstrings]
+    n_qubits = len(bitstrings[0])
     all_bits = "".join(bitstrings)
     bitstring_1d_array = np.frombuffer(all_bits.encode("utf-8"), "u1") - ord("0")
-    return bitstring_1d_array.astype(int).reshape(-1, n_qubits)
+    return bitstring_1d_array.astype(int).reshape(len(bitstrings), n_qubits)
 
 
 def get_expectation_value_from_frequencies(
-- 
2.43.0


From 994205e7b21455cae17f2ef809ba9f680d8f0616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 28/51] fix: constant operators of any number of terms are
 estimated by their sum

---
 src/orquestra/quantum/estimation/_estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/estimation/_estimation.py b/src/orquestra/quantum/estimation/_estimation.py
index 4afc894..8f970e5 100644
--- a/src/orquestra/quantum/estimation/_estimation.py
+++ b/src/orquestra/quantum/estimation/_estimation.py
@@ -102,7 +102,9 @@ def evaluate_non_measured_estimation_tasks(
     for task in estimation_tasks:
         coefficient: complex
         if task.operator.is_constant:
-            coefficient = task.operator.terms[0].coefficient
+            coefficient = sum(
+                (term.coefficient for term in task.operator.terms), start=0.0
+            )
         else:
             if task.number_of_shots is not None and task.number_of_shots > 0:
                 raise RuntimeError(
-- 
2.43.0


From 80df605ea695787bafd989d86c0db0196801b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 29/51] fix: reject negative imaginary parts and imaginary
 constants in time evolution

---
 src/orquestra/quantum/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 911386a..097d5e5 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -62,13 +62,13 @@ def time_evolution_for_term(term: PauliTerm, time: Union[float, sympy.Expr]) ->
 
     circuit = Circuit()
 
+    if abs(term.coefficient.imag) > 1e-9:
+        raise ValueError("Coefficients of terms must be real for Trotterization.")
+
     # If constant term, return empty circuit.
     if term.is_constant:
         return circuit
 
-    if term.coefficient.imag > 1e-9:
-        raise ValueError("Coefficients of terms must be real for Trotterization.")
-
     for i, qubit_id in enumerate(qubit_indices):
         if term[qubit_id] == "X":
             basis_change += H(qubit_id)
-- 
2.43.0


From 54add348a044460f38108e6700a2c5b911df2487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 30/51] fix: derivative circuits of terms with zero coefficient

---
 src/orquestra/quantum/evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 097d5e5..f7d0cc1 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -125,7 +125,9 @@ def time_evolution_derivatives(
                 )
             r = term_1.coefficient.real / n_steps
             output_factors.append(r * factor)
-            shift = factor * (np.pi / (4.0 * r))
+            # A term with zero coefficient does not depend on time, the contributions
+            # of its two (identical) circuits cancel out.
+            shift = factor * (np.pi / (4.0 * r)) if r != 0 else 0.0
 
             for j, term_2 in enumerate(terms):
                 output += time_evolution_for_term(
-- 
2.43.0


From 9ae3252201a90327ade1f648851b59c35c1c83cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 31/51] fix: derivative circuits with several steps evolve for
 time / n_steps

---
 src/orquestra/quantum/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index f7d0cc1..232b9ee 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -142,7 +142,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", n_steps=1
+            hamiltonian, time / n_steps, method="Trotter", n_steps=1
         )
 
         for position in range(n_steps):
-- 
2.43.0


From c9e29bc42ce591c78e9cf13dda1ada18422bbc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 32/51] fix: marginals of distributions leave the source intact
 and keep outcomes apart

---
 .../_measurement_outcome_distribution.py              | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 2340da2..abdff88 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -1,7 +1,6 @@
 ################################################################################
 # © Copyright 2022 Zapata Computing Inc.
 ################################################################################
-import copy
 import json
 import math
 import sys
@@ -93,18 +92,16 @@ class MeasurementOutcomeDistribution:
         new_counts: Dict[Union[str, Tuple[int, ...]], float] = {}
 
         # check for no out of range indexes
-        if max(active_qubits) + 1 > len(list(self.distribution_dict.keys())[0]):
+        if max(active_qubits) + 1 > self.get_number_of_subsystems():
             raise ValueError("Active qubit indeces contains out of bound index.")
 
         # check for duplicate indexes
         if len(active_qubits) != len(set(active_qubits)):
             raise ValueError("There exist duplicate indices in the active qubit list")
 
-        for key in copy.deepcopy(list(self.distribution_dict.keys())):
-            new_key = "".join(str(key[i]) for i in active_qubits)
-            new_counts[new_key] = self.distribution_dict.pop(key) + new_counts.get(
-                new_key, 0
-            )
+        for key, value in self.distribution_dict.items():
+            new_key = tuple(key[i] for i in active_qubits)
+            new_counts[new_key] = value + new_counts.get(new_key, 0)
         normalize = is_normalized(self.distribution_dict)
         return MeasurementOutcomeDistribution(new_counts, normalize=normalize)
 
-- 
2.43.0


From a4eccb147048f783cc6c129f59a21295446be68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 33/51] fix: load outcome distributions from any path

---
 .../_measurement_outcome_distribution.py            | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index abdff88..f14f78c 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -3,6 +3,7 @@
 ################################################################################
 import json
 import math
+import os
 import sys
 import warnings
 from itertools import product
@@ -10,7 +11,7 @@ from typing import Any, Callable, Dict, List, Tuple, Union
 
 import numpy as np
 
-from ..typing import AnyPath
+from ..typing import AnyPath, LoadSource
 
 
 class MeasurementOutcomeDistribution:
@@ -294,7 +295,9 @@ def save_measurement_outcome_distributions(
         f.write(json.dumps(dictionary, indent=2))
 
 
-def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistribution:
+def load_measurement_outcome_distribution(
+    file: LoadSource,
+) -> MeasurementOutcomeDistribution:
     """Load a measurement outcome distribution from a json file.
 
     Arguments:
@@ -303,7 +306,7 @@ def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistri
     Returns:
         object: a python object loaded from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, os.PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -319,7 +322,7 @@ def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistri
 
 
 def load_measurement_outcome_distributions(
-    file: str,
+    file: LoadSource,
 ) -> List[MeasurementOutcomeDistribution]:
     """Load a list of measurement_outcome_distribution from a json file.
 
@@ -330,7 +333,7 @@ def load_measurement_outcome_distributions(
         A list of measurement outcome distributions loaded
          from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, os.PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
-- 
2.43.0


From 63818e84966c72b9c5a7d8f7f21121df247f8f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 34/51] fix: multi-digit outcomes of a single subsystem survive
 saving and loading

---
 .../_measurement_outcome_distribution.py            | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index f14f78c..aa38512 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -113,7 +113,10 @@ def preprocess_distibution_dict(
     res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            digits = list(key) if "," not in key else key.split(",")
+            if digits[1:] == [""]:
+                digits.pop()  # single subsystem, written with a trailing comma
+            res_dict[tuple(map(int, digits))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -244,11 +247,17 @@ def normalize_measurement_outcome_distribution(
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key: value
         for key, value in dict.items()
     }
 
 
+def _tuple_to_comma_separated_integers(key: Tuple[int, ...]) -> str:
+    # Without any comma, digits would be read back as separate subsystems.
+    is_ambiguous = len(key) == 1 and key[0] > 9
+    return ",".join(map(str, key)) + ("," if is_ambiguous else "")
+
+
 def save_measurement_outcome_distribution(
     distribution: MeasurementOutcomeDistribution, filename: AnyPath
 ) -> None:
-- 
2.43.0


From 380f8b7f29add88122122868837226cc94aa1574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 35/51] fix: MMD of distributions over outcomes with more than
 two values

---
 src/orquestra/quantum/distributions/mmd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/distributions/mmd.py b/src/orquestra/quantum/distributions/mmd.py
index 85e1630..4ea7a32 100644
--- a/src/orquestra/quantum/distributions/mmd.py
+++ b/src/orquestra/quantum/distributions/mmd.py
@@ -26,6 +26,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 # SOFTWARE.
 
+from functools import reduce
 from typing import TYPE_CHECKING, Dict, Sequence
 
 import numpy as np
@@ -87,6 +88,10 @@ def compute_multi_rbf_kernel(
     return kernel_matrix / len(sigmas)
 
 
+def _digits_to_int(digits: Sequence[int], base: int) -> int:
+    return reduce(lambda value, digit: value * base + digit, map(int, digits), 0)
+
+
 def compute_mmd(
     target_distribution: "MeasurementOutcomeDistribution",
     measured_distribution: "MeasurementOutcomeDistribution",
@@ -122,9 +127,9 @@ def compute_mmd(
             measured_distribution.distribution_dict.get(bitstring, 0)
         )
 
-    basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys]
-    )  # Digit Tuple to int
+    # Digit Tuple to int. Base 2 unless there are outcomes with more than two values.
+    base = max((digit + 1 for item in all_keys for digit in item), default=2)
+    basis = np.asarray([_digits_to_int(item, max(base, 2)) for item in all_keys])
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
     else:
-- 
2.43.0


From 782b2fe32aa61296f328ef2209208b71755c893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 36/51] fix: MMD of distributions over wide registers

---
 src/orquestra/quantum/distributions/mmd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/distributions/mmd.py b/src/orquestra/quantum/distributions/mmd.py
index 4ea7a32..85ad4a6 100644
--- a/src/orquestra/quantum/distributions/mmd.py
+++ b/src/orquestra/quantum/distributions/mmd.py
@@ -49,7 +49,7 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -76,7 +76,7 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
@@ -129,7 +129,9 @@ def compute_mmd(
 
     # Digit Tuple to int. Base 2 unless there are outcomes with more than two values.
     base = max((digit + 1 for item in all_keys for digit in item), default=2)
-    basis = np.asarray([_digits_to_int(item, max(base, 2)) for item in all_keys])
+    codes = [_digits_to_int(item, max(base, 2)) for item in all_keys]
+    # Machine integers overflow for wide registers
+    basis = np.asarray(codes, dtype=np.int64 if max(codes) < 2**63 else object)
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
     else:
-- 
2.43.0


From 69c6dba7c197f1bca4c4b2f00ae3c2a42372b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 37/51] fix: decomposing a circuit keeps its number of qubits

---
 .../quantum/decompositions/_orquestra_decompositions.py   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 88f626a..1d39e76 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -46,4 +46,10 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_orquestra_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    decomposed_circuit = Circuit(
+        decompose_operations(circuit.operations, decomposition_rules)
+    )
+    return Circuit(
+        decomposed_circuit.operations,
+        n_qubits=max(circuit.n_qubits, decomposed_circuit.n_qubits),
+    )
-- 
2.43.0


From 7ef54c33f0bc347d3b9efd47e7502f31a5c9e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 38/51] fix: decomposing circuits with operations other than
 gates

---
 .../quantum/decompositions/_orquestra_decompositions.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 1d39e76..aca5d77 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -17,6 +17,9 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 
     def predicate(self, operation: GateOperation) -> bool:
         # Only decompose U3 and its controlled version
+        # Circuits can also comprise operations other than gates, e.g. Reset.
+        if not isinstance(operation, GateOperation):
+            return False
         return (
             operation.gate.name == "U3"
             or isinstance(operation.gate, ControlledGate)
-- 
2.43.0


From b354aedd775df4e01d0791a08332342a80dc59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 39/51] fix: custom gates named U3 aren't decomposed as the
 built-in one

---
 .../decompositions/_orquestra_decompositions.py  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index aca5d77..01926db 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -3,12 +3,17 @@
 ################################################################################
 from typing import Iterable, Sequence
 
-from ..circuits._builtin_gates import RY, RZ
+from ..circuits._builtin_gates import RY, RZ, U3
 from ..circuits._circuit import Circuit
-from ..circuits._gates import ControlledGate, GateOperation
+from ..circuits._gates import ControlledGate, Gate, GateOperation, MatrixFactoryGate
 from ..decompositions._decomposition import DecompositionRule, decompose_operations
 
 
+def _is_u3(gate: Gate) -> bool:
+    # Name isn't enough, custom gates can be named "U3" too.
+    return isinstance(gate, MatrixFactoryGate) and gate.replace_params(()) == U3()
+
+
 class U3GateToRotation(DecompositionRule[GateOperation]):
     """Decomposition of Orquestra's U3 gate.
 
@@ -20,10 +25,9 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
         # Circuits can also comprise operations other than gates, e.g. Reset.
         if not isinstance(operation, GateOperation):
             return False
-        return (
-            operation.gate.name == "U3"
-            or isinstance(operation.gate, ControlledGate)
-            and operation.gate.wrapped_gate.name == "U3"
+        return _is_u3(operation.gate) or (
+            isinstance(operation.gate, ControlledGate)
+            and _is_u3(operation.gate.wrapped_gate)
         )
 
     def production(self, operation: GateOperation) -> Iterable[GateOperation]:
-- 
2.43.0


From 444fbd85e4dccc63c1984201401fe892c2b8db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 40/51] fix: undefined functions named as known ones are
 refused

---
 .../quantum/circuits/symbolic/sympy_expressions.py        | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
index 3ae36bc..6ebd2dc 100644
--- a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
+++ b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
@@ -119,7 +119,13 @@ def power_from_sympy_pow(power: sympy.Pow):
 
 @expression_from_sympy.register
 def function_call_from_sympy_function(function: sympy.Function):
-    return FunctionCall(str(function.func), expression_from_sympy(function.args))
+    name = str(function.func)
+    if SYMPY_DIALECT.known_functions.get(name, function.func) is not function.func:
+        # E.g. undefined function called "add" isn't an addition.
+        raise NotImplementedError(
+            f"Function {function} is currently not supported, name {name} is reserved."
+        )
+    return FunctionCall(name, expression_from_sympy(function.args))
 
 
 @expression_from_sympy.register
-- 
2.43.0


From 3cdeb7a9d31dd70b6c5ce80b1831d9df444643d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 41/51] fix: translating unsupported expressions raises an
 error

---
 src/orquestra/quantum/circuits/symbolic/translations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/translations.py b/src/orquestra/quantum/circuits/symbolic/translations.py
index e60667f..d72a84a 100644
--- a/src/orquestra/quantum/circuits/symbolic/translations.py
+++ b/src/orquestra/quantum/circuits/symbolic/translations.py
@@ -13,7 +13,9 @@ from .expressions import Expression, ExpressionDialect, FunctionCall, Symbol
 def translate_expression(
     expression: Union[Expression, Tuple[Expression, ...]], dialect: ExpressionDialect
 ):
-    pass
+    raise NotImplementedError(
+        f"Expression {expression} of type {type(expression)} is currently not supported"
+    )
 
 
 @translate_expression.register
-- 
2.43.0


From c2256ba73ad228d2c53e5c9df70762c60175e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 42/51] fix: natural ordering of symbols with superscript
 digits

---
 src/orquestra/quantum/circuits/symbolic/_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/_sorting.py b/src/orquestra/quantum/circuits/symbolic/_sorting.py
index 65b461a..af5d757 100644
--- a/src/orquestra/quantum/circuits/symbolic/_sorting.py
+++ b/src/orquestra/quantum/circuits/symbolic/_sorting.py
@@ -6,7 +6,7 @@ import re
 
 
 def _convert_string_to_int_if_possible(text):
-    return int(text) if text.isdigit() else text
+    return int(text) if text.isdecimal() else text
 
 
 def natural_key(symbol):
-- 
2.43.0


From 39da3ad87e4519f662187966ab5aa2e5a9679f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 43/51] fix: parse printed Pauli sums with large coefficients

---
 src/orquestra/quantum/operators/_pauli_operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index 68c300e..ffb4876 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -401,7 +401,9 @@ class PauliTerm:
 class PauliSum:
     def __init__(self, terms: Optional[Union[str, Sequence[PauliTerm]]] = None):
         if isinstance(terms, str):
-            terms = [PauliTerm(s.strip()) for s in re.split(r"\+(?![^(]*\))", terms)]
+            # A plus sign in an exponent (e.g. 1e+20) doesn't separate terms
+            terms_strs = re.split(r"(?<![eE])\+(?![^(]*\))", terms)
+            terms = [PauliTerm(s.strip()) for s in terms_strs]
         if terms is None:
             # If no terms is given, the PauliSum has a value of zero.
             terms = []
-- 
2.43.0


From d37a0f66016f295c3999287e74e90d75e37bcdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 44/51] fix: counts of shots recorded as booleans or numpy
 numbers

---
 src/orquestra/quantum/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 76db575..c98ad70 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -264,7 +264,7 @@ def tuple_to_bitstring(tup: Tuple[int, ...]) -> str:
     Returns:
         A string with binary digits
     """
-    return "".join(map(str, tup))
+    return "".join(str(int(bit)) for bit in tup)
 
 
 class ValueEstimate(float):
-- 
2.43.0


From c99ac9b431ba1cf493f008e390d26d35134e5f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 45/51] fix: circuit widths given as other integral numbers are
 stored as int

---
 src/orquestra/quantum/circuits/_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index e6181b9..0a3b43b 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -60,7 +60,7 @@ class Circuit:
             if cast_n_qubits <= 0:
                 raise ValueError("Non-positive value passed.")
 
-            self._n_qubits = n_qubits
+            self._n_qubits = cast_n_qubits
         else:
             self._n_qubits = _circuit_size_by_operations(self._operations)
 
-- 
2.43.0


From 9ad1e5890bc8e03b5e2738ad0ceceac3dd41b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 46/51] fix: serialise circuits with numpy numbers

---
 src/orquestra/quantum/circuits/_serde.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 86bf1e6..0f38110 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -7,6 +7,7 @@ import re
 from functools import singledispatch
 from typing import Iterable, List, Mapping
 
+import numpy as np
 import sympy
 
 from ..typing import DumpTarget, LoadSource
@@ -22,6 +23,10 @@ _CONSTANT_TEXTS = {
 }
 
 
+def _native_number(number):
+    return number.item() if isinstance(number, np.generic) else number
+
+
 def serialize_expr(expr: sympy.Expr):
     if isinstance(expr, sympy.Expr):
         # A constant would be mistaken for a symbol that has the same name.
@@ -33,7 +38,7 @@ def serialize_expr(expr: sympy.Expr):
                 if str(constant) in symbol_names
             }
         )
-    return str(expr)
+    return str(_native_number(expr))
 
 
 def deserialize_expr(expr_str, symbol_names):
@@ -112,7 +117,7 @@ def _circuit_to_dict(circuit: _circuit.Circuit):
     """
     custom_gate_definitions = circuit.collect_custom_gate_definitions()
     return {
-        "n_qubits": circuit.n_qubits,
+        "n_qubits": int(circuit.n_qubits),
         **(
             {
                 "operations": _map_eager(to_dict, circuit.operations),
@@ -147,7 +152,7 @@ def _gate_operation_to_dict(gate_operation: _gates.GateOperation):
     return {
         "type": "gate_operation",
         "gate": to_dict(gate_operation.gate),
-        "qubit_indices": list(gate_operation.qubit_indices),
+        "qubit_indices": _map_eager(int, gate_operation.qubit_indices),
     }
 
 
@@ -178,7 +183,7 @@ def _controlled_gate_to_dict(gate: _gates.ControlledGate):
     return {
         "name": gate.name,
         "wrapped_gate": to_dict(gate.wrapped_gate),
-        "num_control_qubits": gate.num_control_qubits,
+        "num_control_qubits": int(gate.num_control_qubits),
     }
 
 
@@ -203,7 +208,7 @@ def _power_gate_to_dict(gate: _gates.Power):
     return {
         "name": gate.name,
         "wrapped_gate": to_dict(gate.wrapped_gate),
-        "exponent": gate.exponent,
+        "exponent": _native_number(gate.exponent),
     }
 
 
-- 
2.43.0


From 7f1907a7c527d69e0182d1640c1b796a53bb91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 47/51] fix: numpy floats multiply and add to Pauli operators
 from the left

---
 src/orquestra/quantum/operators/_pauli_operators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index ffb4876..8a3627d 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -138,6 +138,9 @@ class PauliTerm:
     it defaults to 1.0
     """
 
+    # Numpy scalars leave arithmetic with operators to the methods defined here.
+    __array_ufunc__ = None
+
     def __init__(
         self,
         operator: Union[str, Dict[int, str]],
@@ -399,6 +402,9 @@ class PauliTerm:
 
 
 class PauliSum:
+    # Numpy scalars leave arithmetic with operators to the methods defined here.
+    __array_ufunc__ = None
+
     def __init__(self, terms: Optional[Union[str, Sequence[PauliTerm]]] = None):
         if isinstance(terms, str):
             # A plus sign in an exponent (e.g. 1e+20) doesn't separate terms
-- 
2.43.0


From 33bb4b6d0dde9fe3a63f528143fe692e1e424796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 48/51] fix: serialise Pauli operators with numpy numbers

---
 src/orquestra/quantum/operators/_io.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/operators/_io.py b/src/orquestra/quantum/operators/_io.py
index ac162e5..cbe388c 100644
--- a/src/orquestra/quantum/operators/_io.py
+++ b/src/orquestra/quantum/operators/_io.py
@@ -3,6 +3,7 @@
 ################################################################################
 from typing import Any, Dict, List, Tuple
 
+import numpy as np
 import rapidjson as json
 
 from ..typing import AnyPath, LoadSource
@@ -42,16 +43,19 @@ def convert_op_to_dict(op: PauliRepresentation) -> Dict[str, Any]:
     dictionary["terms"] = []
     for term in op.terms:
         term_dict: Dict[str, Any] = {
-            "pauli_ops": [{"qubit": op[0], "op": op[1]} for op in term.operations]
+            "pauli_ops": [{"qubit": int(op[0]), "op": op[1]} for op in term.operations]
         }
 
-        if isinstance(term.coefficient, complex):
+        coefficient = term.coefficient
+        if isinstance(coefficient, np.generic):
+            coefficient = coefficient.item()
+        if isinstance(coefficient, complex):
             term_dict["coefficient"] = {
-                "real": term.coefficient.real,
-                "imag": term.coefficient.imag,
+                "real": coefficient.real,
+                "imag": coefficient.imag,
             }
         else:
-            term_dict["coefficient"] = {"real": term.coefficient.real}
+            term_dict["coefficient"] = {"real": coefficient.real}
 
         dictionary["terms"].append(term_dict)
 
-- 
2.43.0


From 92fd8fd5a0e95b6f19f4fbd0291af9dc25ca531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 49/51] fix: save outcome distributions with numpy
 probabilities or boolean outcomes

---
 .../distributions/_measurement_outcome_distribution.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index aa38512..a7e74dd 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -247,7 +247,9 @@ def normalize_measurement_outcome_distribution(
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key: value
+        (
+            _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key
+        ): float(value)
         for key, value in dict.items()
     }
 
@@ -255,7 +257,7 @@ def change_tuple_dict_keys_to_comma_separated_integers(dict):
 def _tuple_to_comma_separated_integers(key: Tuple[int, ...]) -> str:
     # Without any comma, digits would be read back as separate subsystems.
     is_ambiguous = len(key) == 1 and key[0] > 9
-    return ",".join(map(str, key)) + ("," if is_ambiguous else "")
+    return ",".join(map(str, map(int, key))) + ("," if is_ambiguous else "")
 
 
 def save_measurement_outcome_distribution(
-- 
2.43.0


From 4f7ec8f299364f47ac66e523251653ae796f1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 50/51] fix: runners accept any integral number of shots for a
 batch

---
 src/orquestra/quantum/api/circuit_runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/api/circuit_runner.py b/src/orquestra/quantum/api/circuit_runner.py
index 9801982..c743c14 100644
--- a/src/orquestra/quantum/api/circuit_runner.py
+++ b/src/orquestra/quantum/api/circuit_runner.py
@@ -3,6 +3,7 @@
 ################################################################################
 """Definition of CircuitRunner protocol and ABC for implementing it."""
 from abc import ABC, abstractmethod
+from numbers import Integral
 from typing import List, Optional, Protocol, Sequence, Union
 
 from ..circuits import Circuit
@@ -160,12 +161,12 @@ class BaseCircuitRunner(ABC, CircuitRunner):
             dedicated way of running circuits' batch, `_run_batch_and_measure`
             method.
         """
-        if isinstance(n_samples, int) and n_samples <= 0:
+        if isinstance(n_samples, Integral) and n_samples <= 0:
             raise ValueError(f"Number of samples has to be positive, got {n_samples}")
 
         samples_per_circuit = (
             len(circuits_batch) * [n_samples]
-            if isinstance(n_samples, int)
+            if isinstance(n_samples, Integral)
             else n_samples
         )
         if len(samples_per_circuit) != len(circuits_batch):
-- 
2.43.0


From d8350a5479be0a51a1ddf17dac365597332c06f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 51/51] fix: track distributions sampled with a numpy number of
 shots

---
 src/orquestra/quantum/runners/trackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/runners/trackers.py b/src/orquestra/quantum/runners/trackers.py
index e7233cc..a3902b9 100644
--- a/src/orquestra/quantum/runners/trackers.py
+++ b/src/orquestra/quantum/runners/trackers.py
@@ -112,7 +112,7 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
                 "circuit": to_dict(circuit),
                 "distribution": repr(distribution),
                 "number_of_gates": len(circuit.operations),
-                "number_of_shots": n_samples,
+                "number_of_shots": None if n_samples is None else int(n_samples),
             }
         )
         self.save_raw_data()
-- 
2.43.0

