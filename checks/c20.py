"""C20: value-returning operations leave every argument as it was, and repeating them gives equal results."""
import dataclasses
import json
import operator
import warnings

import numpy as np
import sympy
from orquestra.quantum import circuits as C
from orquestra.quantum import distributions as D
from orquestra.quantum import measurements as M
from orquestra.quantum import operators as O
from orquestra.quantum import utils
from orquestra.quantum import wavefunction as W
from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
from orquestra.quantum.api.estimation import EstimationTask
from orquestra.quantum.circuits import Circuit, CustomGateDefinition, MultiPhaseOperation, ResetOperation
from orquestra.quantum.decompositions import U3GateToRotation, decompose_orquestra_circuit
from orquestra.quantum.distributions import MeasurementOutcomeDistribution
from orquestra.quantum.estimation import (calculate_exact_expectation_values, estimate_expectation_values_by_averaging,
                                          evaluate_estimation_circuits, evaluate_non_measured_estimation_tasks,
                                          split_estimation_tasks_to_measure)
from orquestra.quantum.evolution import time_evolution, time_evolution_derivatives
from orquestra.quantum.measurements import ExpectationValues, Measurements, Parities
from orquestra.quantum.operators import PauliSum, PauliTerm
from orquestra.quantum.runners import SymbolicSimulator
from orquestra.quantum.wavefunction import Wavefunction

from symx import core, matfun, sparse
from symx.api import Caught, scenario

from . import lib

warnings.simplefilter("ignore")


def setup_symbolic():
    sparse.register()
    matfun.register()


BOUNDS = ("operators: every pair out of 9 shapes of terms and sums (0-3 terms, constants, repeated and shared terms) with arbitrary complex "
          "or real coefficients under 40 operations, histories of 2 (thorough 3) operations feeding results back; circuits: pairs out of 6 "
          "(gates with arbitrary angles, symbols, wrappers, custom gates, multi-phase operations) under 40 operations, histories of 2 "
          "(thorough 3); measurement sets of 1-3 shots of 2 arbitrary bits under 20 operations with arbitrary Ising operators; "
          "distributions over 1-4 outcomes with arbitrary weights under 20 operations; wavefunctions of 1-3 qubits with arbitrary "
          "amplitudes or symbols under 20 operations; every argument, including containers, shared objects and results of earlier "
          "calls, is compared before and after every call")
OUTSIDE = ("operations documented to change their receiver (assigning an amplitude, add_counts, runner counters); "
           "normalize_measurement_outcome_distribution on a plain dictionary and expectation_values_to_real (existing tests require them to "
           "change their argument, which is none of the listed kinds of object); containers "
           "handed out by attributes (Circuit.operations, PauliSum.terms) edited by the caller; iterators consumed as arguments; "
           "random draws are not compared; longer histories")


# ---- deep snapshots of what can be observed
def snap(o, depth=0):
    if depth > 14:
        return "..."
    rec = lambda x: snap(x, depth + 1)
    if o is None or isinstance(o, (bool, str, bytes, type)) or isinstance(o, core.Sym):
        return o
    if isinstance(o, utils.ValueEstimate):
        return ("estimate", float.__float__(o), rec(o.precision))
    if isinstance(o, (int, float, complex, np.generic)):
        return o
    if isinstance(o, Caught):
        return ("raised", type(o.exc).__name__)
    if isinstance(o, PauliTerm):
        ops = getattr(o, "_ops", None)
        return ("term", o.coefficient, frozenset(o.operations), list(ops.items()) if isinstance(ops, dict) else None)
    if isinstance(o, PauliSum):
        return ("sum", [rec(t) for t in o.terms])
    if isinstance(o, Circuit):
        return ("circuit", o.n_qubits, [rec(x) for x in o.operations])
    if isinstance(o, Measurements):
        return ("measurements", rec(list(o.bitstrings)))
    if isinstance(o, MeasurementOutcomeDistribution):
        return ("distribution", rec(o.distribution_dict))
    if isinstance(o, Wavefunction):
        return ("wavefunction", len(o), rec([o[i] for i in range(len(o))]))
    if isinstance(o, (ExpectationValues, Parities, EstimationTask)):
        return (type(o).__name__, rec({k: v for k, v in vars(o).items() if not k.startswith("_")}))
    if isinstance(o, (SymbolicSimulator, BaseCircuitRunner)):
        return "runner"
    if isinstance(o, sympy.MatrixBase):
        return ("matrix", o.shape, [rec(x) for x in o])
    if isinstance(o, sympy.Basic):
        return o
    if hasattr(o, "toarray"):
        return ("sparse", rec(o.toarray()))
    if isinstance(o, np.ndarray):
        return ("array", o.shape, [rec(x) for x in o.reshape(-1).tolist()])
    if isinstance(o, dict):
        return ("dict", [(rec(k), rec(v)) for k, v in o.items()])
    if isinstance(o, (set, frozenset)):
        return ("set", frozenset(o))
    if isinstance(o, (list, tuple)):
        return ("list", [rec(x) for x in o])
    if dataclasses.is_dataclass(o):
        names = [f.name for f in dataclasses.fields(o)] + (["qubit_indices"] if isinstance(o, ResetOperation) else [])
        return (type(o).__name__, [(n, rec(getattr(o, n))) for n in names if not n.startswith("_")])
    if callable(o):
        return ("callable", getattr(o, "__qualname__", ""), id(o))
    if hasattr(o, "__iter__"):
        return ("list", [rec(x) for x in o])
    return (type(o).__name__, [(k, rec(v)) for k, v in getattr(o, "__dict__", {}).items() if not k.startswith("_")])


def compare(S, a, b, path=""):
    """-> (list of numeric equalities, structural difference or None)"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return [], f"{path}: {len(a)} entries became {len(b)}"
        eqs = []
        for i, (x, y) in enumerate(zip(a, b)):
            e, d = compare(S, x, y, f"{path}.{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i}")
            if d:
                return [], d
            eqs += e
        return eqs, None
    numeric = lambda v: isinstance(v, (int, float, complex, np.generic, core.Sym)) and not isinstance(v, (bool, np.bool_))
    if numeric(a) and numeric(b):
        if a is b:
            return [], None
        if not isinstance(a, core.Sym) and not isinstance(b, core.Sym):
            return [], None if a == b or (a != a and b != b) else f"{path}: {a!r} became {b!r}"
        x, y = S.num(a), S.num(b)
        return [S.eq(x.real, y.real), S.eq(x.imag, y.imag)], None
    if isinstance(a, sympy.Basic) or isinstance(b, sympy.Basic):
        if a == b:
            return [], None
        if not getattr(a, "free_symbols", None) and not getattr(b, "free_symbols", None):
            try:
                x, y = S.num(S.ev(a)), S.num(S.ev(b))
                return [S.eq(x.real, y.real), S.eq(x.imag, y.imag)], None
            except Exception:
                pass
        return [], f"{path}: expression changed"
    if type(a) is type(b) and a == b:
        return [], None
    return [], f"{path}: changed"


def same(S, a, b, label):
    eqs, diff = compare(S, a, b)
    if diff:
        S.fail(f"{label} ({diff})" if S.symbolic is False else label, info=diff)
        return False
    if eqs:
        S.check(S.all(*eqs), label)
    else:
        S.check(True, label)
    return True


class World:
    """the objects that are alive; a call may use any of them and must change none of them"""

    def __init__(self, S, objects):
        self.S, self.objects = S, list(objects)
        self.before = [snap(o) for o in self.objects]

    def add(self, o):
        self.objects.append(o)
        self.before.append(snap(o))

    def unchanged(self, what):
        for i, (o, b) in enumerate(zip(self.objects, self.before)):
            if not same(self.S, b, snap(o), f"{what} leaves its arguments as they were"):
                return


def eager(r):
    return list(r) if hasattr(r, "__next__") else r


def call(S, f, *args):
    r = S.catch(f, *args)
    return r if isinstance(r, Caught) else eager(r)


def repeat(S, name, f, make, compare_results=True):
    """f on two equal sets of objects, and twice on the same one"""
    first = make()
    w = World(S, first)
    r = call(S, f, *first)
    w.unchanged(name)
    kept = snap(r)
    r2 = call(S, f, *first)
    w.unchanged(name + " (again)")
    if compare_results:
        same(S, kept, snap(r2), f"{name}: calling twice gives equal results")
        same(S, kept, snap(r), f"{name}: the first result stays as it was")
    return w, r


# ---- operators
TERMS = [{}, {0: "X"}, {1: "Z", 0: "Y"}, {2: "Z"}]
SHAPES = {
    "constant": ({},), "x": ({0: "X"},), "yz": ({1: "Z", 0: "Y"},), "none": [], "one": [{0: "Z"}],
    "like": [{0: "X"}, {0: "X"}], "mixed": [{1: "X", 0: "Z"}, {}, {0: "Y"}], "shared": [{0: "Z"}, {1: "Z"}, "again"], "ising": [{0: "Z"}, {0: "Z", 1: "Z"}],
}


def make_operator(shape, cs):
    terms, out = [], []
    for i, s in enumerate(shape):
        out.append(out[0] if s == "again" else PauliTerm(dict(s), cs[i]))
    return out[0] if isinstance(shape, tuple) else PauliSum(out)


def coefs(S, tag, shape, kinds=("complex", "real")):
    k = S.choice(f"{tag}kind", list(kinds)) if len(shape) else "real"
    return [S.cplx(f"{tag}{i}") if k == "complex" else S.real(f"{tag}{i}") for i in range(len(shape))]


def saved(S, save, load, what, *args):
    p = S.tmp("saved.json")
    save(what, p, *args)
    return load(p)


def assigned(fn, a, b):
    """`c = a; c += b` gives c another value; a keeps its own"""
    return fn(a, b)


def op_calls(S):
    wf = lambda: Wavefunction(np.array([0.5, 0.5j, -0.5, 0.5], dtype=complex))
    return {
        "a + b": lambda a, b: a + b, "a - b": lambda a, b: a - b, "a * b": lambda a, b: a * b, "a == b": lambda a, b: a == b,
        "a + a": lambda a, b: a + a, "a * a": lambda a, b: a * a, "a - a": lambda a, b: a - a,
        "a += b": lambda a, b: assigned(operator.iadd, a, b), "a -= b": lambda a, b: assigned(operator.isub, a, b),
        "a *= b": lambda a, b: assigned(operator.imul, a, b), "a *= 2": lambda a, b: assigned(operator.imul, a, 2.5),
        "a /= 2": lambda a, b: assigned(operator.itruediv, a, 2), "a **= 2": lambda a, b: assigned(operator.ipow, a, 2),
        "a + 2": lambda a, b: a + 2.5, "2 - a": lambda a, b: 2 - a, "3j * a": lambda a, b: 3j * a, "a / 2": lambda a, b: a / 2,
        "a ** 0": lambda a, b: a**0, "a ** 1": lambda a, b: a**1, "a ** 2": lambda a, b: a**2, "a ** 3": lambda a, b: a**3,
        "a ** -1": lambda a, b: a**-1,
        "simplify": lambda a, b: a.simplify() if isinstance(a, PauliSum) else a.copy(), "copy": lambda a, b: [t.copy() for t in a.terms],
        "copy with": lambda a, b: [t.copy(new_coefficient=2.0) for t in a.terms],
        "conjugate": lambda a, b: O.hermitian_conjugated(a), "is_hermitian": lambda a, b: O.is_hermitian(a),
        "to_dict": lambda a, b: O.convert_dict_to_op(O.convert_op_to_dict(a)), "strings": lambda a, b: O.get_pauli_strings(a),
        "save": lambda a, b: saved(S, O.save_operator, O.load_operator, a), "save set": lambda a, b: saved(S, O.save_operator_set, O.load_operator_set, [a, b, a]),
        "sparse": lambda a, b: O.get_sparse_operator(a, n_qubits=3), "reverse": lambda a, b: O.reverse_qubit_order(a, n_qubits=3),
        "expectation": lambda a, b: O.get_expectation_value(a, wf()), "reversed expectation": lambda a, b: O.get_expectation_value(a, wf(), True),
        "queries": lambda a, b: (a.is_ising, a.qubits, a.n_qubits, a.is_constant, len(a), a.terms),
        "constant": lambda a, b: a.constant_term if isinstance(a, PauliSum) else a[0],
        "circuit": lambda a, b: a.circuits if isinstance(a, PauliSum) else a.circuit, "text": lambda a, b: repr(a) and None,
        "iterate": lambda a, b: [x for x in a], "identity": lambda a, b: (PauliSum.identity(), PauliTerm.identity()),
        "evolution": lambda a, b: time_evolution(a if isinstance(a, PauliSum) else PauliSum([a]), 0.5, n_steps=2),
        "derivatives": lambda a, b: time_evolution_derivatives(a if isinstance(a, PauliSum) else PauliSum([a]), 0.5, n_steps=1),
        "sum of": lambda a, b: PauliSum([*a.terms, *b.terms]).simplify(), "hash": lambda a, b: None if S.symbolic else hash(a) and None,
    }


BINARY = ["a + b", "a - b", "a * b", "a += b", "a -= b", "a *= b", "a == b", "save set", "sum of"]


@scenario(weight=3)
def operators(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    calls = op_calls(S)
    name = S.choice("call", list(calls))
    s = S.choice("a", list(SHAPES))
    t = S.choice("b", (list(SHAPES) if S.thorough else ["constant", "yz", "like", "mixed"]) if name in BINARY else ["x"])
    single = len(SHAPES[s]) == 1 and len(SHAPES[t]) == 1
    kinds = ["complex"] if (single or S.thorough and len(SHAPES[s]) < 3) and name not in ("evolution", "derivatives") else ["real"]
    ca, cb = coefs(S, "a", SHAPES[s], kinds), coefs(S, "b", SHAPES[t], kinds)
    repeat(S, name, calls[name], lambda: (make_operator(SHAPES[s], ca), make_operator(SHAPES[t], cb)))


HISTORY = ["a + b", "a * b", "a - b", "2 - a", "3j * a", "a ** 2", "simplify", "conjugate", "to_dict", "circuit", "queries", "is_hermitian", "sparse", "a == b", "reverse"]


def history(S, kinds, make, calls, names, usable, steps, extra=()):
    """calls on shared objects whose results join the objects; the last call is compared with the same call on fresh objects"""
    live = list(make())
    w = World(S, live)
    usual = list(live)
    log = []
    for i in range(steps):
        name = S.choice(f"call{i}", names)
        a = S.pick(f"a{i}", len(usual)) if i else 0
        b = S.pick(f"b{i}", len(usual)) if i == steps - 1 and steps < 3 else len(usual) - 1
        log.append((name, a, b))
        r = call(S, calls[name], usual[a], usual[b])
        w.unchanged(name)
        if not isinstance(r, Caught):
            w.add(r)
            if usable(r):
                usual.append(r)
    name, a, b = log[-1]
    again = call(S, calls[name], usual[a], usual[b])
    w.unchanged(name + " (again)")
    if a < len(live) and b < len(live):
        fresh = list(make())
        same(S, snap(call(S, calls[name], fresh[a], fresh[b])), snap(r), f"{name}: same result as on fresh objects")
    same(S, snap(r), snap(again), f"{name}: calling twice gives equal results")


@scenario(weight=3)
def operator_histories(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    x, y = S.real("x"), S._mkc(0.5, S.real("y"))
    pairs = [("x", "shared"), ("mixed", "yz"), ("like", "ising")]
    s, t = S.choice("pair", pairs if S.thorough else pairs[:2])
    history(S, None, lambda: (make_operator(SHAPES[s], [x, y, 0.5]), make_operator(SHAPES[t], [y, 2.0, x])), op_calls(S),
            HISTORY if not S.thorough else HISTORY + ["a - a", "sum of", "expectation", "evolution", "copy with"],
            lambda r: isinstance(r, (PauliTerm, PauliSum)), 2)


@scenario(tiers=("thorough",))
def long_operator_histories(S):
    x, y = S.real("x", 1, 2), S.real("y", 1, 2)
    history(S, None, lambda: (make_operator(SHAPES["shared"], [x, y, 0.5]), make_operator(SHAPES["yz"], [y])), op_calls(S),
            ["a + b", "a * b", "2 - a", "simplify", "conjugate", "circuit", "queries", "to_dict"], lambda r: isinstance(r, (PauliTerm, PauliSum)), 3)


@scenario()
def operator_dictionaries(S):
    """dictionaries, strings, lists and matrices given to constructors"""
    if S.symbolic:
        core.CTX.unsigned_text = True
    a, b = S.real("a"), S.cplx("b")
    k = S.choice("call", ["term", "sum", "from_iterable", "from dict", "matrix", "labels", "parse", "evaluate", "evaluate list"])
    make = {
        "term": lambda: ({0: "X", 1: "I", 2: "Z"},), "sum": lambda: ([PauliTerm("X0", a), PauliTerm("Z1", b)],),
        "from_iterable": lambda: ([("X", 1), ("I", 2), ("Z", 0)],),
        "from dict": lambda: ({"terms": [{"pauli_ops": [{"qubit": 0, "op": "X"}, {"qubit": 3, "op": "Z"}], "coefficient": {"real": a, "imag": b.real}},
                                         {"pauli_ops": [], "coefficient": {"real": b.imag}}]},),
        "matrix": lambda: ([[1.0, 0.5, 0, 0], [0.5, -1.0, 0, 0], [0, 0, 2.0, 1j], [0, 0, -1j, 2.0]],),
        "labels": lambda: ([0.5, -1.5], [[0, 1, 2], [3, 3, 0]]),
        "parse": lambda: ("0.5*X0*Z2 + 2*Y1",),
        "evaluate": lambda: (PauliSum([PauliTerm("Z0", a), PauliTerm("Z1", 0.5)]), ExpectationValues(np.array([0.25, -1.0]))),
        "evaluate list": lambda: ([PauliSum([PauliTerm("Z0", a)]), PauliTerm("Z1", 0.5)], ExpectationValues(np.array([0.25, -1.0]))),
    }[k]
    from orquestra.quantum.operators import _utils as U
    f = {
        "term": lambda d: PauliTerm(d, b), "sum": PauliSum, "from_iterable": lambda d: PauliTerm.from_iterable(d, a), "from dict": O.convert_dict_to_op,
        "matrix": U.get_pauliop_from_matrix, "labels": U.get_pauliop_from_coeffs_and_labels, "parse": PauliSum,
        "evaluate": lambda o, e: float(U.evaluate_operator(o, e)) if not S.symbolic else None,
        "evaluate list": lambda o, e: float(U.evaluate_operator_list(o, e)) if not S.symbolic else None,
    }[k]
    repeat(S, k, f, make)


# ---- circuits
T_, U_, X_, Y_ = sympy.symbols("t u x y")


def custom():
    return CustomGateDefinition("cust", sympy.Matrix([[sympy.cos(T_), -sympy.sin(T_) * U_], [sympy.sin(T_) * U_, sympy.cos(T_)]]), (T_, U_))


def plain_custom():
    return CustomGateDefinition("swap_like", sympy.Matrix([[0, 1], [1, 0]]), ())


def make_circuit(kind, th, ph):
    return {
        "empty": lambda: Circuit([], n_qubits=2),
        "gates": lambda: Circuit([C.RX(th)(0), C.CNOT(0, 1), C.U3(th, ph, 0.5)(1)]),
        "symbols": lambda: Circuit([C.RZ(X_)(1), C.XX(X_ * 2 + Y_)(1, 0), C.RY(ph)(0)], n_qubits=2),
        "wrapped": lambda: Circuit([C.RX(th).controlled(1)(1, 0), C.T.dagger(1), C.RZ(X_).dagger(0)], n_qubits=2),
        "custom": lambda: Circuit([custom()(th, X_)(1), plain_custom()()(0), custom()(0.5, 1.0).dagger(0)], n_qubits=2),
        "phases": lambda: Circuit([C.H(0), MultiPhaseOperation((th, X_, 0.5, ph)), C.X(1)], n_qubits=2),
    }[kind]()


KINDS = ["empty", "gates", "symbols", "wrapped", "custom", "phases"]


class Stub(BaseCircuitRunner):
    def _run_and_measure(self, circuit, n_samples):
        return Measurements([tuple((s >> q) & 1 for q in range(circuit.n_qubits)) for s in range(int(n_samples))])


def circuit_calls(S):
    calls = {
        "a + b": lambda a, b: a + b, "a + a": lambda a, b: a + a, "a + operation": lambda a, b: a + C.CNOT(2, 0),
        "a += b": lambda a, b: assigned(operator.iadd, a, b), "a += operation": lambda a, b: assigned(operator.iadd, a, C.CNOT(2, 0)), "a == b": lambda a, b: a == b,
        "bind": lambda a, b: a.bind({X_: 0.5, Y_: 0.25}), "bind some": lambda a, b: a.bind({Y_: 0.5}), "bind nothing": lambda a, b: a.bind({}),
        "bind to symbols": lambda a, b: a.bind({X_: Y_, Y_: X_ + 1}),
        "inverse": lambda a, b: a.inverse(), "controlled": lambda a, b: a.controlled(0), "controlled after": lambda a, b: a.controlled(2),
        "free_symbols": lambda a, b: (a.free_symbols, a.n_qubits, a.collect_custom_gate_definitions()), "unitary": lambda a, b: a.to_unitary(),
        "to_dict": lambda a, b: C.circuit_from_dict(C.to_dict(a)), "set to_dict": lambda a, b: C.circuitset_from_dict(C.to_dict([a, b, a])),
        "save": lambda a, b: saved(S, C.save_circuit, C.load_circuit, a), "save set": lambda a, b: saved(S, C.save_circuitset, C.load_circuitset, [a, b]),
        "text": lambda a, b: repr(a) and None, "split": lambda a, b: C.split_circuit(a, lambda op: len(op.qubit_indices) == 1),
        "ancilla": lambda a, b: C.add_ancilla_register(a, 2), "decompose": lambda a, b: decompose_orquestra_circuit(a, []),
        "gates": lambda a, b: [(op.gate.matrix, op.gate.params, op.gate.num_qubits, op.gate.name) for op in a.operations],
        "gate wrappers": lambda a, b: [(op.gate.dagger, op.gate.controlled(1), op.gate.power(2)) for op in a.operations],
        "gate bind": lambda a, b: [(op.bind({X_: 0.5}), op.replace_params(op.params)) for op in a.operations],
        "gate eq": lambda a, b: [op == p for op in a.operations for p in b.operations],
        "gate lifted": lambda a, b: [op.lifted_matrix(2) for op in a.operations],
        "U3 decomposed": lambda a, b: decompose_orquestra_circuit(a, [U3GateToRotation()]),
    }
    return calls


@scenario(weight=3)
def circuits(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    calls = circuit_calls(S)
    name = S.choice("call", list(calls))
    s = S.choice("a", KINDS)
    t = S.choice("b", KINDS if name in ("a + b", "a += b", "a == b", "set to_dict", "save set", "gate eq") else ["gates"])
    th, ph = S.reals("th", 2, -7, 7)
    repeat(S, name, calls[name], lambda: (make_circuit(s, th, ph), make_circuit(t, ph, 0.25)))


CIRCUIT_HISTORY = ["a + b", "a + operation", "a == b", "bind", "bind to symbols", "inverse", "controlled", "free_symbols", "to_dict", "split", "ancilla", "U3 decomposed"]


@scenario(weight=3)
def circuit_histories(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    th, ph = S.reals("th", 2, -7, 7)
    s, t = S.choice("pair", [("gates", "symbols"), ("custom", "wrapped")])
    history(S, None, lambda: (make_circuit(s, th, ph), make_circuit(t, ph, 0.25)), circuit_calls(S), CIRCUIT_HISTORY,
            lambda r: isinstance(r, Circuit), 2)


@scenario(tiers=("thorough",))
def long_circuit_histories(S):
    th, ph = S.reals("th", 2, -7, 7)
    history(S, None, lambda: (make_circuit("gates", th, ph), make_circuit("symbols", ph, 0.25)), circuit_calls(S),
            ["a + b", "a + operation", "bind", "inverse", "controlled", "to_dict", "ancilla", "free_symbols"], lambda r: isinstance(r, Circuit), 3)


@scenario(weight=2)
def circuit_arguments(S):
    """containers given along with circuits"""
    if S.symbolic:
        core.CTX.unsigned_text = True
    th, ph = S.reals("th", 2, -7, 7)
    s = S.choice("a", KINDS)
    mk = lambda: make_circuit(s, th, ph)
    table = {
        "constructor": (lambda: (list(make_circuit("gates", th, ph).operations) + [C.X(3)],), lambda ops: (Circuit(ops), Circuit(ops, n_qubits=6))),
        "append to an appended": (lambda: (mk(),), lambda c: (c + C.X(0), c + c, c + C.H(4) + C.X(1))),
        "bind": (lambda: (mk(), {X_: th, Y_: 0.5, T_: 1.0}), lambda c, m: c.bind(m)),
        "bind partially": (lambda: (mk(), {Y_: X_, sympy.Symbol("z"): ph}), lambda c, m: c.bind(m)),
        "serialised": (lambda: (C.to_dict(make_circuit("gates" if s == "phases" else s, th, ph)),), C.circuit_from_dict),
        "serialised set": (lambda: (C.to_dict([make_circuit("gates" if s == "phases" else s, th, ph)] * 2),), C.circuitset_from_dict),
        "definition": (lambda: (C.to_dict(make_circuit("custom", th, ph))["custom_gate_definitions"][0],), C.custom_gate_def_from_dict if hasattr(C, "custom_gate_def_from_dict") else (lambda d: None)),
        "layer": (lambda: (np.array([[0.1], [0.2]]),), lambda p: C.create_layer_of_gates(2, C.RX, p)),
        "apply": (lambda: (mk(), [1, 0], np.array([[0.1], [0.2]])), lambda c, q, p: C.apply_gate_to_qubits(c, q, C.RX, p)),
        "apply fixed": (lambda: (mk(), [1, 3]), lambda c, q: C.apply_gate_to_qubits(c, q, C.H)),
        "decompose": (lambda: (mk(), [U3GateToRotation()]), lambda c, rules: decompose_orquestra_circuit(c, rules)),
        "custom definition": (lambda: (sympy.Matrix([[0, T_], [U_, 0]]), [T_, U_]),
                              lambda m, p: [CustomGateDefinition("g", m, tuple(p))(th, ph).bind({}).matrix, CustomGateDefinition("g", m, tuple(p))(1, 2).dagger.matrix]),
        "gate matrices": (lambda: (custom()(th, ph), plain_custom()(), C.RX(th), C.U3(th, ph, X_)),
                          lambda *gs: [(g.matrix, g.dagger.matrix, g.controlled(1).matrix, g.power(2).matrix, g.free_symbols) for g in gs]),
        "lifted": (lambda: (custom()(th, ph)(2), C.RX(th)(0), C.RZ(X_)(1)), lambda *ops: [op.lifted_matrix(3) for op in ops]),
    }
    name = S.choice("call", list(table))
    make, f = table[name]
    repeat(S, name, f, make)


@scenario(weight=2)
def evaluation(S):
    """running circuits: circuits, initial states, batches, tasks and runners' arguments"""
    S.rng_free = 0
    if S.symbolic:
        core.CTX.unsigned_text = True
    th, ph = S.reals("th", 2, -7, 7)
    psi = S.unit("psi", 4)
    s = S.choice("a", ["gates", "phases", "empty", "custom"])
    mk = lambda: make_circuit(s, th, ph).bind({X_: 1.0, Y_: 1.0})
    fixed = lambda: make_circuit(s, 0.5, 0.25).bind({X_: 1.0, Y_: 1.0})
    raw = lambda: make_circuit(s, th, ph)
    ham = lambda: PauliSum([PauliTerm("Z0", th), PauliTerm("X1*Z0", 0.5), PauliTerm("I0", 2.0)])
    ising = lambda: PauliSum([PauliTerm("Z0", th), PauliTerm("Z1*Z0", 0.5)])
    sim, stub = SymbolicSimulator(), Stub()
    tasks = lambda: [EstimationTask(ising(), mk(), 2), EstimationTask(PauliSum([PauliTerm("I0", th)]), mk(), 3), EstimationTask(ising(), mk(), 0)]
    exact = lambda: [EstimationTask(ham(), mk(), None), EstimationTask(PauliTerm("Z0", th), mk(), None)]
    table = {
        "wavefunction": (lambda: (mk(),), lambda c: sim.get_wavefunction(c).amplitudes, True),
        "wavefunction from state": (lambda: (mk(), S.array(psi)), lambda c, v: sim.get_wavefunction(c, v).amplitudes, True),
        "apply": (lambda: (mk(), S.array(psi)), lambda c, v: [op.apply(v) for op in c.operations], True),
        "apply to a matrix": (lambda: (make_circuit("gates" if s == "phases" else s, 0.5, ph), sympy.Matrix([X_, 0, Y_, 0])), lambda c, v: [op.apply(v) for op in c.operations], True),
        "exact": (lambda: (mk(), ham()), lambda c, h: sim.get_exact_expectation_values(c, h), True),
        "run": (lambda: (fixed(),), lambda c: sim.run_and_measure(c, 2), False),
        "batch": (lambda: ([fixed(), fixed(), Circuit([C.X(0)])], [1, 2, 1]), lambda cs, ns: sim.run_batch_and_measure(cs, ns), False),
        "stub batch": (lambda: ([mk(), mk()], [3, 2]), lambda cs, ns: stub.run_batch_and_measure(cs, ns), True),
        "distribution": (lambda: (fixed(),), lambda c: sim.get_measurement_outcome_distribution(c, 2), False),
        "exact distribution": (lambda: (mk(),), lambda c: sim.get_measurement_outcome_distribution(c, None), True),
        "tasks by averaging": (lambda: (tasks(),), lambda ts: estimate_expectation_values_by_averaging(stub, ts), True),
        "exact tasks": (lambda: (exact(),), lambda ts: calculate_exact_expectation_values(sim, ts), True),
        "bind tasks": (lambda: ([EstimationTask(ham(), raw(), 5)] * 2, [{X_: 0.5}, {X_: th, Y_: 1.0}]), evaluate_estimation_circuits, True),
        "split tasks": (lambda: (tasks(),), split_estimation_tasks_to_measure, True),
        "unmeasured tasks": (lambda: (tasks()[1:],), evaluate_non_measured_estimation_tasks, True),
    }
    name = S.choice("call", list(table))
    make, f, det = table[name]
    repeat(S, name, f, make, compare_results=det)


@scenario()
def batching(S):
    """lists given to the batching helpers"""
    table = {
        "batches": (lambda: ([Circuit([C.X(i)]) for i in range(3)], [3, 1, 2]), lambda cs, ns: C.split_into_batches(cs, ns, 2)),
        "expand": (lambda: ([Circuit([C.X(i)]) for i in range(2)], [3, 5]), lambda cs, ns: C.expand_sample_sizes(cs, ns, 2)),
        "counts": (lambda: ([{"01": 1, "11": 2}, {"01": 3}, {"10": 1}], [2, 1]), C.combine_measurement_counts),
        "bitstrings": (lambda: ([[(0, 1), (1, 1)], [(0, 0)], [(1, 0)]], [2, 1]), C.combine_bitstrings),
        "discretise": (lambda: ([0.5, 1.5, 3.0], 7), utils.scale_and_discretize),
        "symbols map": (lambda: ([X_, Y_], np.array([0.5, 1.0])), utils.create_symbols_map),
        "flip": (lambda: (["01", "10"], [(0, 1), (1, 1)]), lambda a, b: (utils.convert_bitstrings_to_tuples(a), utils.convert_tuples_to_bitstrings(b))),
    }
    name = S.choice("call", list(table))
    make, f = table[name]
    repeat(S, name, f, make)


# ---- measurement sets
def bits(S, n, w=2):
    return [tuple(S.choice(f"bit{i}{q}", [0, 1]) for q in range(w)) for i in range(n)]


def measurement_calls(S):
    def distribution(m, o):
        return m.get_distribution()

    return {
        "counts": lambda m, o: m.get_counts(), "distribution": distribution, "expectation": lambda m, o: m.get_expectation_values(o),
        "bessel": lambda m, o: m.get_expectation_values(o, True), "parities": lambda m, o: M.get_parities_from_measurements(m.bitstrings, o),
        "parity values": lambda m, o: M.get_expectation_values_from_parities(M.get_parities_from_measurements(m.bitstrings, o)),
        "save": lambda m, o: saved(S, lambda x, p: x.save(p), Measurements.load_from_file, m), "again": lambda m, o: Measurements(m.bitstrings),
        "from counts": lambda m, o: Measurements.from_counts(m.get_counts()),
        "marginal": lambda m, o: m.get_distribution().subdistribution([1]),
        "frequencies": lambda m, o: [M.get_expectation_value_from_frequencies(t.qubits, m.get_counts()) for t in o.terms],
        "check parity": lambda m, o: [M.check_parity(b, t.qubits) for b in m.bitstrings for t in o.terms],
    }


def ising(shape, cs):
    return make_operator(shape, cs)


ISING = {"one": [{0: "Z"}], "three": [{1: "Z", 0: "Z"}, {}, {1: "Z"}], "term": ({1: "Z"},), "not": [{0: "X"}, {1: "Z"}], "shared": [{0: "Z"}, {1: "Z"}, "again"]}


@scenario(weight=2)
def measurement_sets(S):
    calls = measurement_calls(S)
    n = S.choice("shots", [1, 2, 3] if S.thorough else [1, 2])
    bs = bits(S, n)
    o = S.choice("operator", list(ISING))
    cs = [S.real(f"c{i}") for i in range(3)]
    name = S.choice("call", list(calls))
    repeat(S, name, calls[name], lambda: (Measurements(list(bs)), ising(ISING[o], cs)))


@scenario(weight=2)
def measurement_histories(S):
    calls = measurement_calls(S)
    bs = bits(S, 2) + [(1, 0)]
    cs = [S.real(f"c{i}") for i in range(3)]
    m, o = Measurements(list(bs)), ising(ISING["three"], cs)
    w = World(S, [m, o])
    names = [k for k in calls if k != "save"]
    for i in range(2):
        name = S.choice(f"call{i}", names)
        r = call(S, calls[name], m, o)
        w.unchanged(name)
        w.add(r)
    fresh = call(S, calls[name], Measurements(list(bs)), ising(ISING["three"], cs))
    same(S, snap(fresh), snap(r), f"{name}: same result as on fresh objects")


@scenario()
def measurement_containers(S):
    """lists, tallies, arrays and reports given to the measurement functions"""
    a, b = S.reals("a", 2)
    n0, n1 = S.choice("n0", [0, 1, 3]), S.choice("n1", [1, 2])
    ev = lambda: ExpectationValues(S.array([a, b]), [S.array([[a, b], [b, 1.0]])], [S.array([[0.5, b], [b, 0.25]])])
    par = lambda: Parities(np.array([[n0, n1], [2, 3]]), [np.array([[[1.0, 2.0], [3.0, 0.0]], [[0.0, 1.0], [4.0, 4.0]]])])
    table = {
        "constructor": (lambda: ([(0, 1), (1, 1)],), lambda x: Measurements(x).get_counts()),
        "from counts": (lambda: ({"01": n0, "11": n1},), Measurements.from_counts),
        "frequencies": (lambda: ([0, 1], {"01": n0 + 1, "11": n1}), M.get_expectation_value_from_frequencies),
        "parity": (lambda: ([0, 1], [1, 0]), lambda x, q: M.check_parity(x, q)),
        "parity vector": (lambda: (np.array([[0, 1], [1, 1], [0, 0]]), [1, 0]), lambda x, q: M.check_parity_of_vector(x, q)),
        "parities of a list": (lambda: ([(0, 1), (1, 1), (0, 1)], PauliSum([PauliTerm("Z0", a), PauliTerm("Z1")])), M.get_parities_from_measurements),
        "values from parities": (lambda: (par(),), M.get_expectation_values_from_parities),
        "parities to dict": (lambda: (par(),), lambda p: Parities.from_dict(p.to_dict())),
        "parities from dict": (lambda: (par().to_dict(),), Parities.from_dict),
        "save parities": (lambda: (par(),), lambda p: saved(S, M.save_parities, M.load_parities, p)),
        "values to dict": (lambda: (ev(),), lambda p: ExpectationValues.from_dict(p.to_dict())),
        "values from dict": (lambda: (ev().to_dict(),), ExpectationValues.from_dict),
        "concatenate": (lambda: ([ev(), ev(), ExpectationValues(S.array([b]))],), M.concatenate_expectation_values),
        "concatenate shared": (lambda: ([ev()] * 2,), M.concatenate_expectation_values),
        "representing": (lambda: (MeasurementOutcomeDistribution({"00": 0.5, "01": 0.25, "11": 0.25}),), lambda d: Measurements.get_measurements_representing_distribution(d, 4)),
        "samples": (lambda: ({(0, 1): 0.5, (1, 1): 0.5},), lambda d: utils.sample_from_probability_distribution(d, 1) and None),
        "to_int": (lambda: ([1, 0, 1],), M.convert_bitstring_to_int),
    }
    S.rng_free = 0
    name = S.choice("call", list(table))
    if name in ("values to dict", "values from dict") and S.symbolic:
        core.CTX.unsigned_text = True
    make, f = table[name]
    repeat(S, name, f, make)


@scenario(weight=2)
def corrections(S):
    """sampling corrections of a distribution that no number of shots matches"""
    S.rng_free = 1
    k = S.choice("outcomes", [2, 3])
    ps = [S.real(f"p{i}", 0, 1) for i in range(k)]
    t = S.num(0)
    for p in ps:
        t = t + p
    S.assume(S.eq(t, 1))
    keys = [(0, 1), (1, 1), (1, 0)][:k]
    d = MeasurementOutcomeDistribution(dict(zip(keys, ps)))
    w = World(S, [d])
    S.catch(Measurements.get_measurements_representing_distribution, d, S.choice("shots", [1, 2, 3]))
    w.unchanged("get_measurements_representing_distribution")


# ---- distributions
KEYS = {
    "one": [(0,), (1,)], "two": [(0, 0), (1, 0), (1, 1)], "wide": [(0, 1, 0), (1, 1, 0), (0, 0, 1)], "digits": [(10, 2), (3, 0)], "all": [(0, 0), (0, 1), (1, 0), (1, 1)],
}


def weights(S, tag, n, free=True):
    ws = [S.real(f"{tag}{i}", 0, 2) for i in range(n)]
    t = S.num(0)
    for w in ws:
        t = t + w
    if free:
        S.assume(t > 0.01)
    else:
        S.assume(S.eq(t, 1))
    return ws


def distribution_calls(S):
    def dist(f, par):
        return lambda d, e: D.evaluate_distribution_distance(d, e, f, distance_measure_parameters=dict(par))

    return {
        "marginal 0": lambda d, e: d.subdistribution([0]), "marginal last": lambda d, e: d.subdistribution([d.get_number_of_subsystems() - 1]),
        "all subsystems": lambda d, e: d.subdistribution(list(range(d.get_number_of_subsystems()))[::-1]),
        "bad marginal": lambda d, e: d.subdistribution([0, 9]), "repeated marginal": lambda d, e: d.subdistribution([0, 0]), "no marginal": lambda d, e: d.subdistribution([]),
        "mmd": dist(D.compute_mmd, {"sigma": 1}), "mmd multi": dist(D.compute_mmd, {"sigma": [1, 2]}),
        "likelihood": dist(D.compute_clipped_negative_log_likelihood, {"epsilon": 1e-3}), "divergence": dist(D.compute_jensen_shannon_divergence, {}),
        "save": lambda d, e: saved(S, D.save_measurement_outcome_distribution, D.load_measurement_outcome_distribution, d),
        "save list": lambda d, e: saved(S, D.save_measurement_outcome_distributions, D.load_measurement_outcome_distributions, [d, e, d]),
        "queries": lambda d, e: (d.get_number_of_subsystems(), D.is_normalized(d.distribution_dict), D.is_measurement_outcome_distribution(d.distribution_dict)),
        "again": lambda d, e: MeasurementOutcomeDistribution(d.distribution_dict), "not normalised": lambda d, e: MeasurementOutcomeDistribution(d.distribution_dict, normalize=False),
        "preprocess": lambda d, e: D.preprocess_distibution_dict(d.distribution_dict), "commas": lambda d, e: D.change_tuple_dict_keys_to_comma_separated_integers(d.distribution_dict),
    }


@scenario(weight=2)
def distributions(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    calls = distribution_calls(S)
    k = S.choice("keys", list(KEYS))
    normalise = S.choice("normalise", [True, False])
    ws = weights(S, "w", len(KEYS[k]))
    vs = weights(S, "v", len(KEYS[k]))
    name = S.choice("call", list(calls))
    repeat(S, name, calls[name], lambda: (MeasurementOutcomeDistribution(dict(zip(KEYS[k], ws)), normalise), MeasurementOutcomeDistribution(dict(zip(KEYS[k][::-1], vs)), normalise)))


@scenario(weight=2)
def distribution_histories(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    k = S.choice("keys", ["two", "wide"])
    ws, vs = weights(S, "w", 3, free=False), weights(S, "v", 3, free=False)
    names = ["marginal 0", "all subsystems", "bad marginal", "likelihood", "mmd", "save", "again", "queries", "commas"]
    history(S, None, lambda: (MeasurementOutcomeDistribution(dict(zip(KEYS[k], ws))), MeasurementOutcomeDistribution(dict(zip(KEYS[k][::-1], vs)))),
            distribution_calls(S), names, lambda r: isinstance(r, MeasurementOutcomeDistribution) and r.get_number_of_subsystems() == len(KEYS[k][0]), 2)


@scenario()
def distribution_containers(S):
    """the dictionary, list or parameters handed over"""
    ws = weights(S, "w", 3)
    keys = S.choice("notation", [[(0, 0), (0, 1), (1, 1)], ["00", "01", "11"], ["0,0", "0,1", "1,1"], ["00", (0, 1), "1,1"]])
    qs = S.choice("subsystems", [[0], [1], [1, 0], [0, 5], []])
    dd = lambda: dict(zip(keys, ws))
    table = {
        "constructor": (lambda: (dd(),), lambda d: MeasurementOutcomeDistribution(d)),
        "constructor without normalisation": (lambda: (dd(),), lambda d: MeasurementOutcomeDistribution(d, normalize=False)),
        "marginal": (lambda: (MeasurementOutcomeDistribution(dd()), list(qs)), lambda d, q: d.subdistribution(q)),
        "preprocess": (lambda: (dd(),), D.preprocess_distibution_dict), "valid": (lambda: (dd(),), lambda d: D.is_normalized(d)),
        "from probabilities": (lambda: (S.array([ws[0], ws[1], ws[2], 0.0]),), lambda p: D.create_bitstring_distribution_from_probability_distribution(p) if not S.symbolic else None),
        "distance parameters": (lambda: (MeasurementOutcomeDistribution(dd()), MeasurementOutcomeDistribution(dd()), {"sigma": [1.0, 2.0], "epsilon": 0.01}),
                                lambda d, e, p: (D.compute_mmd(d, e, p), D.compute_clipped_negative_log_likelihood(d, e, p), D.compute_jensen_shannon_divergence(d, e, p))),
        "list": (lambda: ([MeasurementOutcomeDistribution(dd()), MeasurementOutcomeDistribution(dd())],),
                 lambda x: saved(S, D.save_measurement_outcome_distributions, lambda p: None, x)),
    }
    if S.symbolic:
        core.CTX.unsigned_text = True
    name = S.choice("call", list(table))
    make, f = table[name]
    repeat(S, name, f, make)


# ---- wavefunctions
def wave_calls(S):
    return {
        "probabilities": lambda w, v: w.get_probabilities(), "outcomes": lambda w, v: w.get_outcome_probs(), "amplitudes": lambda w, v: w.amplitudes,
        "flip": lambda w, v: W.flip_wavefunction(w), "flip amplitudes": lambda w, v: W.flip_amplitudes(w.amplitudes), "queries": lambda w, v: (w.n_qubits, len(w), w.free_symbols, list(w)),
        "bind": lambda w, v: w.bind({X_: 0.25, Y_: 0.5}), "bind some": lambda w, v: w.bind({X_: 0.125}), "eq": lambda w, v: w == v, "again": lambda w, v: Wavefunction(w.amplitudes),
        "bind too much": lambda w, v: w.bind({X_: 5.0}), "save": lambda w, v: saved(S, W.save_wavefunction, W.load_wavefunction, w), "text": lambda w, v: str(w) and None,
        "sample": lambda w, v: W.sample_from_wavefunction(w, 1) and None, "expectation": lambda w, v: O.get_expectation_value(PauliSum("0.5*Z0 + X1*Z0"), w),
    }


def wave(S, kind, psi):
    return Wavefunction({"numbers": lambda: S.array(psi), "list": lambda: list(psi), "symbols": lambda: sympy.Matrix([X_, 0.5, Y_, 0]),
                         "one symbol": lambda: [0.5, X_]}[kind]())


@scenario(weight=2)
def wavefunctions(S):
    S.rng_free = 1
    if S.symbolic:
        core.CTX.unsigned_text = True
    kind = S.choice("kind", ["numbers", "list", "symbols", "one symbol"])
    n = S.choice("n", [1, 2, 3] if S.thorough else [1, 2]) if kind in ("numbers", "list") else 0
    psi = S.unit("psi", 2**n)
    calls = wave_calls(S)
    name = S.choice("call", list(calls))
    repeat(S, name, calls[name], lambda: (wave(S, kind, psi), wave(S, kind, psi)))


@scenario()
def wavefunction_histories(S):
    S.rng_free = 1
    if S.symbolic:
        core.CTX.unsigned_text = True
    psi, phi = S.unit("psi", 4), S.unit("phi", 4)
    kind = S.choice("kind", ["numbers", "symbols"])
    names = ["probabilities", "outcomes", "flip", "bind", "bind some", "eq", "again", "save", "expectation"]
    history(S, None, lambda: (wave(S, kind, psi), wave(S, "numbers", phi)), wave_calls(S), names, lambda r: isinstance(r, Wavefunction) and len(r) == 4, 2)


@scenario()
def wavefunction_arguments(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    psi = S.unit("psi", 4)
    table = {
        "constructor": (lambda: (S.array(psi),), lambda a: Wavefunction(a).get_probabilities()),
        "constructor from list": (lambda: (list(psi),), lambda a: Wavefunction(a).get_outcome_probs()),
        "constructor from matrix": (lambda: (sympy.Matrix([X_, 0.5, Y_, 0]),), lambda a: Wavefunction(a).bind({X_: 0.5, Y_: 0.5 ** 0.5})),
        "flip": (lambda: (S.array(psi),), W.flip_amplitudes), "flip list": (lambda: (list(psi),), W.flip_amplitudes),
        "bind": (lambda: (Wavefunction(sympy.Matrix([X_, 0.5, Y_, 0])), {X_: 0.5, Y_: 0.25}), lambda w, m: w.bind(m)),
        "array to dict": (lambda: (S.array(psi),), lambda a: utils.convert_dict_to_array(utils.convert_array_to_dict(a))),
        "dict to array": (lambda: (utils.convert_array_to_dict(np.array([0.5, 1j])),), utils.convert_dict_to_array),
        "dicke": (lambda: (3, 2), lambda n, k: Wavefunction.dicke_state(n, k)), "zero": (lambda: (2,), lambda n: Wavefunction.zero_state(n)),
    }
    name = S.choice("call", list(table))
    make, f = table[name]
    repeat(S, name, f, make)
