"""C18: decomposing a circuit never changes what it does."""
import itertools

import sympy
from orquestra.quantum import circuits as C
from orquestra.quantum.circuits import Circuit, CustomGateDefinition, MultiPhaseOperation, ResetOperation
from orquestra.quantum.decompositions import U3GateToRotation, decompose_operations, decompose_orquestra_circuit

from symx import core
from symx.api import Caught, scenario

from . import lib

BOUNDS = ("U3 with arbitrary angles in [-7, 7], plain and with 1-2 (thorough 3) controls on every placement in registers of up to 3 (4) "
          "qubits, declared register widths up to 5; circuits of 1-3 operations (thorough 4) drawn from plain, controlled, daggered and "
          "powered U3s, other gates, custom gates (one of them named U3) and operations that are not gates; rule lists of 0-3 (4) rules "
          "over up to 3 operations: arbitrary integer predicates and productions of 0-3 operations; free symbols bound before or after; three (four) controls in "
          "five orders; eleven triples of given angles of every number type; circuits of up to 30 and rule lists of up to 8")
OUTSIDE = ("user-defined rules that are not equivalences; more qubits; the controlled U3 is compared modulo the relative phase recorded as "
           "known finding, and exactly under that finding's key")

KNOWN = "controlled-u3-relative-phase"
RULES = [U3GateToRotation()]
TOL = 1e-8


def angles(S, name):
    return [S.real(f"{name}{a}", -7, 7) for a in "tpl"]


def adjust(M, k):
    return lib.scale(k, M)


def split(op):
    """(angles, number of controls) of a U3, plain or controlled; None for anything else"""
    g = getattr(op, "gate", None)
    c = 0
    if isinstance(g, C.ControlledGate if hasattr(C, "ControlledGate") else type(C.X.controlled(1))):
        g, c = g.wrapped_gate, g.num_control_qubits
    if isinstance(g, type(C.X)) and g.name == "U3" and g == C.U3(*g.params):
        return g.params, c
    return None


def reference(S, ops, n, env=None, drop=True):
    """matrix of the circuit, up to the global phases of the plain U3s and (drop) the wrapped phases of the controlled ones"""
    U = lib.eye(2**n)
    for op in ops:
        M = lib.tolist(S.ev(op.gate.matrix, env))
        u = split(op)
        if u:
            (_, p, l), c = u
            k = S.cis(-(val(S, p, env) + val(S, l, env)) / 2)
            m = len(M)
            if c == 0:
                M = lib.scale(k, M)
            elif drop:
                M = [[(k * v if i >= m - 2 and j >= m - 2 and not lib.is0(v) else v) for j, v in enumerate(r)] for i, r in enumerate(M)]
        U = lib.mul(lib.embed(M, op.qubit_indices, n), U)
    return U


def val(S, p, env):
    return S.ev(p, env) if isinstance(p, sympy.Basic) else p


def flat(A, B):
    return [(a, b) for r, s in zip(lib.tolist(A), lib.tolist(B)) for a, b in zip(r, s)]


def same_action(S, U, V, label, key=None):
    """equal, or else equal up to some other global phase: |tr(U^ V)| is the dimension"""
    if S.symbolic and core.close_goal(flat(U, V), TOL) is core.FALSE:
        S.close_mat(U, V, label, tol=TOL, key=key)
        return
    n = len(U)
    t = S.num(0)
    for a, b in flat(U, V):
        if not (lib.is0(a) or lib.is0(b)):
            t = t + S.num(a).conjugate() * b
    t2 = t.real * t.real + t.imag * t.imag if not isinstance(t, (int, float)) else t * t
    S.check(t2 >= n * n - 1e-6, label, key=key, margin=t2 < n * n - 1e-3)


def check_circuit(S, c, d, env=None, full=False):
    """c is the original circuit, d the decomposed one"""
    n = c.n_qubits
    V = lib.circuit_matrix(S, d.operations, n, env)
    U = reference(S, c.operations, n, env)
    controlled = any((split(op) or (0, 0))[1] for op in c.operations)
    if controlled:
        E = reference(S, c.operations, n, env, drop=False)
        exact = S.symbolic and core.close_goal(flat(E, V), TOL) is core.FALSE
        same_action(S, E if exact else U, V, "same action (controlled U3 up to the phase of the wrapped gate)") if S.symbolic else either(S, U, E, V)
        if full:
            same_action(S, E, V, "same action, wrapped phases included", key=KNOWN)
    else:
        same_action(S, U, V, "same action up to a global phase")


def either(S, U, E, V):
    def good(A):
        t = sum(complex(a).conjugate() * complex(b) for a, b in flat(A, V))
        return abs(t) ** 2 >= len(A) ** 2 - 1e-6

    S.check(good(U) or good(E), "same action (controlled U3 up to the phase of the wrapped gate)")


def structure(S, before, after):
    """kept operations are unchanged and in order; U3s are gone"""
    kept = [op for op in before if not split(op)]
    rest = list(after)
    pos = 0
    for op in kept:
        at = next((i for i in range(pos, len(rest)) if rest[i] is op or (type(rest[i]) is type(op) and rest[i] == op
                                                                         and rest[i].qubit_indices == op.qubit_indices)), None)
        S.check(at is not None, f"kept in order: {op}")
        if at is None:
            return
        pos = at + 1
    S.check(not any(split(op) for op in after), "no U3 is left")
    extra = sum(1 for op in before if split(op))
    S.check(len(after) >= len(kept) + extra and (extra > 0 or len(after) == len(kept)), "nothing added or lost")


def decompose(S, c, rules=None):
    ops, n = list(c.operations), c.n_qubits
    d = decompose_orquestra_circuit(c, RULES if rules is None else rules)
    S.check(isinstance(d, Circuit), "type")
    S.check(d.n_qubits == n and c.n_qubits == n, "number of qubits")
    S.check(len(c.operations) == len(ops) and all(a is b for a, b in zip(c.operations, ops)), "circuit given is unchanged")
    return d


@scenario()
def plain(S):
    n = S.choice("n", [1, 2, 3])
    q = S.choice("q", list(range(n)))
    width = n + S.choice("idle", [0, 1, 2])
    c = Circuit([C.U3(*angles(S, "a"))(q)], n_qubits=width)
    d = decompose(S, c)
    S.check(all(op.gate.name in ("RZ", "RY") and op.qubit_indices == (q,) for op in d.operations), "rotations on the same qubit")
    structure(S, c.operations, d.operations)
    check_circuit(S, c, d)


@scenario(weight=2)
def controlled(S):
    n = S.choice("n", [2, 3, 4] if S.thorough else [2, 3])
    k = S.choice("controls", list(range(1, n)))
    qs = S.choice("qubits", [p for p in itertools.permutations(range(n), k + 1) if n < 4 or p[0] in (0, 3)])
    g = C.U3(*angles(S, "a"))
    g = g.controlled(k) if k < 2 or S.flag("once") else g.controlled(1).controlled(k - 1)
    c = Circuit([g(*qs)], n_qubits=n)
    d = decompose(S, c)
    structure(S, c.operations, d.operations)
    check_circuit(S, c, d, full=True)


NAMED = CustomGateDefinition("U3", sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * sympy.Symbol("g"))]]), (sympy.Symbol("g"),))
NAMED3 = CustomGateDefinition("U3", sympy.diag(1, *[sympy.exp(sympy.I * sympy.Symbol(s)) for s in "xyz"]),
                              tuple(sympy.Symbol(s) for s in "xyz"))
CUSTOM = CustomGateDefinition("swirl", sympy.Matrix([[0, 1], [-1, 0]]), ())
POOL = ["u3", "cu3", "uc3", "rx", "h", "cnot", "u3dag", "cu3dag", "named", "named3", "custom", "crz", "u3inv", "nested"]


SMALL = ["u3", "cu3", "uc3", "cnot", "named"]


def operation(S, kind, name, n):
    a = angles(S, name) if kind in ("u3", "cu3", "uc3", "cu3dag", "u3dag", "named3", "u3inv", "nested") else []
    if kind == "u3":
        return C.U3(*a)(S.choice(name + "q", list(range(n))))
    if kind == "cu3":
        return C.U3(*a).controlled(1)(0, n - 1)
    if kind == "uc3":
        return C.U3(*a).controlled(1)(n - 1, 0)
    if kind == "u3dag":
        return C.U3(*a).dagger(0)
    if kind == "u3inv":
        return C.U3(*a).dagger.dagger(n - 1)
    if kind == "cu3dag":
        return C.U3(*a).controlled(1).dagger(1, 0)
    if kind == "nested":
        return type(C.X.controlled(1))(C.U3(*a).controlled(1), 1)(0, 1, 2) if n > 2 else C.U3(*a).controlled(1)(1, 0)
    th = S.real(name, -7, 7)
    return {"rx": lambda: C.RX(th)(0), "h": lambda: C.H(n - 1), "cnot": lambda: C.CNOT(0, 1), "named": lambda: NAMED(th)(1),
            "named3": lambda: NAMED3(*a)(1, 0), "custom": lambda: CUSTOM()(0), "crz": lambda: C.RZ(th).controlled(1)(1, 0)}[kind]()


@scenario(weight=3)
def mixed(S):
    n = S.choice("n", [2, 3])
    k = S.choice("count", [1, 2, 3] if n == 2 else [1, 2])
    if k == 3 and not S.thorough:
        kinds = S.choice("kinds", [("u3", "cnot", "u3"), ("cu3", "h", "uc3"), ("named", "u3", "rx"), ("u3dag", "u3", "cnot"), ("h", "cu3", "custom"),
                                   ("u3", "cu3", "u3inv"), ("cu3dag", "crz", "cu3")])
    else:
        kinds = [S.choice(f"kind{i}", POOL if k == 1 or n == 2 and (k == 2 and i == 0) else SMALL) for i in range(k)]
    ops = [operation(S, kd, f"o{i}", n) for i, kd in enumerate(kinds)]
    c = Circuit(ops, n_qubits=n)
    d = decompose(S, c)
    structure(S, ops, d.operations)
    if k < 3 or S.thorough or kinds != ("cu3dag", "crz", "cu3"):
        check_circuit(S, c, d)
    again = decompose(S, d)
    S.check(len(again.operations) == len(d.operations) and all(a == b for a, b in zip(again.operations, d.operations)), "nothing left to decompose")


@scenario()
def not_gates(S):
    """operations that are not gates stay where they are"""
    count = S.choice("count", [1, 2, 3])
    kinds = [S.choice(f"k{i}", ["phase", "reset", "u3", "cu3"] if i < 2 else ["phase", "u3"]) for i in range(count)]
    ops = []
    for i, k in enumerate(kinds):
        if k == "phase":
            ops.append(MultiPhaseOperation(tuple(S.real(f"p{i}_{j}", -3, 3) for j in range(4))))
        elif k == "reset":
            ops.append(ResetOperation(i % 2))
        else:
            ops.append(operation(S, k, f"o{i}", 2))
    c = Circuit(ops)
    empty = S.flag("empty")
    if empty:
        d = S.catch(decompose, S, c, [])
    else:
        d = S.catch(decompose, S, c)
    if isinstance(d, Caught):
        S.fail(f"decomposing fails: {d!r}")
        return
    rest = list(d.operations)
    if empty:
        S.check(len(rest) == len(ops) and all(a is b or a == b for a, b in zip(rest, ops)), "nothing changes without rules")
        return
    runs = [[]]
    for op in ops:
        if hasattr(op, "gate"):
            runs[-1].append(op)
        else:
            runs.append([])
    got = [[]]
    others = []
    for op in rest:
        if hasattr(op, "gate"):
            got[-1].append(op)
        else:
            others.append(op)
            got.append([])
    S.check(len(others) == len(runs) - 1 and all(a is b for a, b in zip(others, [op for op in ops if not hasattr(op, "gate")])),
            "operations that are not gates are kept in order")
    if len(got) == len(runs):
        for a, b in zip(runs, got):
            check_circuit(S, Circuit(a, n_qubits=2), Circuit(b, n_qubits=2)) if a or b else None


@scenario()
def empty_rules(S):
    n = S.choice("n", [2, 4])
    ops = [operation(S, S.choice(f"k{i}", ["u3", "cu3", "cnot", "named", "u3dag"]), f"o{i}", 2) for i in range(S.choice("count", [0, 1, 2]))]
    c = Circuit(ops, n_qubits=n)
    d = decompose(S, c, S.choice("rules", [[], ()]))
    S.check(len(d.operations) == len(ops) and all(a is b or a == b for a, b in zip(d.operations, ops)), "circuit unchanged")
    S.check(d == c, "equal to the original")
    S.check(decompose_operations(ops, []) == ops, "operations unchanged")


@scenario()
def symbols(S):
    """decomposition commutes with binding"""
    t, p, l = sympy.symbols("t p l")
    k = S.choice("controls", [0, 1])
    args = S.choice("args", [(t, p, l), (t, t, p), (t + p, 2 * p, l), (t, 0.5, -l), (t * 2, p - l, p + l)])
    g = C.U3(*args)
    c = Circuit([C.H(0), (g.controlled(1)(1, 0) if k else g(1)), C.RX(t)(0)], n_qubits=2)
    env = {s: S.real(str(s), -2, 2) for s in (t, p, l)}
    d = decompose(S, c)
    S.check(set(d.free_symbols) == set(c.free_symbols), "free symbols")
    bound = d.bind(env)
    check_circuit(S, c, d, env)
    first = decompose(S, c.bind(env))
    S.close_mat(lib.circuit_matrix(S, first.operations, 2), lib.circuit_matrix(S, bound.operations, 2), "binding commutes with decomposition")


class Rule:
    def __init__(self, predicate, production):
        self.predicate, self.production = predicate, production


@scenario()
def circuit_rules(S):
    """rules are applied in order, each to what the previous one left"""
    a = angles(S, "a")
    t = S.real("t", -7, 7)
    to_u3 = Rule(lambda op: op.gate.name == "RX", lambda op: [C.U3(op.params[0], -sympy.pi / 2, sympy.pi / 2)(*op.qubit_indices)])
    swap = Rule(lambda op: op.gate.name == "SWAP", lambda op: (g(*qs) for g, qs in
                [(C.CNOT, op.qubit_indices), (C.CNOT, op.qubit_indices[::-1]), (C.CNOT, op.qubit_indices)]))
    cnot = Rule(lambda op: op.gate.name == "CNOT", lambda op: iter([C.H(op.qubit_indices[1]), C.CZ(*op.qubit_indices), C.H(op.qubit_indices[1])]))
    order = S.choice("order", [(0, 1, 2, 3), (1, 0, 3, 2), (2, 1), (3, 2, 1, 0), (1,), (0, 2), (2, 3), (0, 1)])
    rules = [[to_u3, U3GateToRotation(), swap, cnot][i] for i in order]
    ops = [C.RX(t)(1), C.SWAP(0, 1), C.U3(*a)(0), C.CNOT(1, 0)]
    c = Circuit(ops, n_qubits=3)
    d = decompose(S, c, tuple(rules) if S.flag("tuple") else rules)
    names = [op.gate.name for op in d.operations]
    want = [op.gate.name for op in ops]
    for i in order:
        sub = [{"RX": ["U3"]}, {"U3": ["RZ", "RY", "RZ"]}, {"SWAP": ["CNOT"] * 3}, {"CNOT": ["H", "CZ", "H"]}][i]
        want = [y for x in want for y in sub.get(x, [x])]
    S.check(names == want, f"rules in order: {names} instead of {want}")
    V = lib.circuit_matrix(S, d.operations, 3)
    half = S.cis(-(a[1] + a[2]) / 2) if 1 in order else 1
    same_action(S, lib.scale(half, lib.circuit_matrix(S, ops, 3)), V, "same action up to a global phase")


@scenario(weight=2)
def abstract_rules(S):
    """the chaining itself, on operations that are plain integers: arbitrary predicates and productions"""
    m = S.choice("ops", [0, 1, 2, 3])
    r = S.choice("rules", [0, 1, 2, 3] if m < 3 else [0, 1, 2] if S.thorough else [0, 1])
    if S.thorough and m < 2 and r == 3 and S.flag("four"):
        r = 4
    ops = [S.int(f"o{i}", -5, 5) for i in range(m)]
    rules, tables = [], []
    for j in range(r):
        lo = S.int(f"lo{j}", -8, 8)
        shape = S.choice(f"shape{j}", [0, 1, 2, 3] if r < 2 or S.thorough and r == 2 and m < 3 else [0, 2] if r < 3 or S.thorough else [2 * (j == 0)])
        off = [S.int(f"off{j}_{i}", -4, 4) for i in range(shape)]
        form = (list, tuple, iter)[(j + shape) % 3]
        rules.append(Rule(lambda x, lo=lo: x >= lo, lambda x, off=off, form=form: form([x + o for o in off])))
        tables.append((lo, off))
    given = list(rules)
    got = decompose_operations(tuple(ops) if S.flag("tuple") else iter(ops), rules if S.flag("list") else tuple(rules))
    S.check(len(rules) == len(given) and all(a is b for a, b in zip(rules, given)), "rule list unchanged")
    want = ops
    for lo, off in tables:
        want = [y for x in want for y in ([x + o for o in off] if S.truth(x >= lo) else [x])]
    S.check(len(got) == len(want), "number of operations")
    if len(got) == len(want):
        S.check(S.all(True, *[S.eq(a, b) for a, b in zip(got, want)]), "every rule is applied to the output of the previous one")


# ---- size
@scenario()
def three_controls(S):
    """controlled on three and four qubits, in any order of the indices"""
    n = S.choice("n", [4, 5] if S.thorough else [4])
    qs = S.choice("qubits", [(3, 1, 0, 2), (2, 0, 3, 1), (0, 3, 2, 1), (1, 2, 3, 0), (0, 1, 2, 3)] if n == 4 else [(4, 1, 3, 0, 2), (0, 2, 4, 3, 1), (3, 0, 1, 4)])
    k = len(qs) - 1
    g = C.U3(*angles(S, "a"))
    g = g.controlled(k) if S.flag("once") else g.controlled(1).controlled(k - 1)
    c = Circuit([g(*qs)], n_qubits=n)
    d = decompose(S, c)
    structure(S, c.operations, d.operations)
    check_circuit(S, c, d, full=True)


@scenario()
def given_angles(S):
    """angles beyond a turn, equal, opposite and zero angles, of every number type"""
    import numpy as np

    a = S.choice("angles", [(7, -9.5, 13.25), (0.0, 0.0, 0.0), (0, 0.5, -0.5), (6.283185307179586, 1.0, 2.0), (-3, -3, -3), (3.141592653589793, 0.0, 3.141592653589793),
                            (sympy.pi, 0, sympy.pi / 2), (sympy.Rational(1, 3), 2 * sympy.pi, sympy.Float(0.75)), (1e-9, 1e-9, -1e-9), (12.566370614359172, 0, 0), (-1e-3, 40.0, 0.0)])
    if S.flag("numpy") and not any(isinstance(v, sympy.Basic) for v in a):
        a = tuple(np.float64(v) for v in a)
    k = S.choice("controls", [0, 1, 2])
    g = C.U3(*a)
    qs = (2, 0, 1)[:k + 1][::-1]
    op = (g.controlled(k) if k else g)(*qs)
    c = Circuit([C.H(0), C.CNOT(0, 2), op, C.RX(0.7)(2), op], n_qubits=4)
    d = decompose(S, c)
    structure(S, c.operations, d.operations)
    n = c.n_qubits
    V = lib.circuit_matrix(S, d.operations, n)
    fa = [float(v) for v in a]
    U, E = lib.eye(2**n), lib.eye(2**n)
    for o in c.operations:
        M = lib.tolist(o.gate.matrix) if not hasattr(o.gate.matrix, "evalf") else [[complex(v) for v in r] for r in o.gate.matrix.tolist()]
        E = lib.mul(lib.embed(M, o.qubit_indices, n), E)
        if o is op:
            m, w = len(M), S.cis(-(fa[1] + fa[2]) / 2)
            M = [[(w * v if i >= m - 2 and j >= m - 2 else v) for j, v in enumerate(r)] for i, r in enumerate(M)]
        U = lib.mul(lib.embed(M, o.qubit_indices, n), U)
    either(S, U, E, V)


@scenario()
def long_circuits(S):
    """many operations, the same objects and equal ones repeatedly"""
    n = S.choice("n", [2, 3])
    k = S.choice("count", [5, 8, 13, 30])
    a = [0.5, -1.25, 2.0]
    u, v = C.U3(*a)(0), C.U3(S.real("t", -7, 7), 0.25, -0.25)(n - 1)
    cu = C.U3(0.3, 0.1, 0.2).controlled(1)(1, 0)
    pool = [u, C.H(0), u, v, v, C.CNOT(0, 1), cu, C.X(1), C.X(1), C.RZ(0.5)(0), cu, CUSTOM()(0), C.U3(*a)(0)]
    shift = S.choice("shift", [0, 1, 4])
    ops = [pool[(i + shift) % 13] for i in range(k)]
    c = Circuit(ops, n_qubits=n)
    d = decompose(S, c)
    got = list(d.operations)
    pos = 0
    for op in ops:
        w = 3 if split(op) else 1
        part = got[pos:pos + w]
        pos += w
        if w == 1:
            S.check(len(part) == 1 and (part[0] is op or part[0] == op), f"kept in order: {op}")
        elif len(part) == 3 and all(p.qubit_indices == op.qubit_indices for p in part):
            check_circuit(S, Circuit([op], n_qubits=n), Circuit(part, n_qubits=n))
        else:
            S.fail(f"{op} becomes {part}")
    S.check(pos == len(got), "nothing added or lost")


@scenario()
def long_rule_lists(S):
    """many operations and rules on plain integers: counting productions, dropping productions, rules that undo each other"""
    m = S.choice("ops", [1, 5, 12])
    r = S.choice("rules", [3, 5, 8])
    ops = [S.int("o", -3, 12)] + [(i * 5) % 13 - 2 for i in range(1, m)]
    tables = [(2 * (j % 3) + (j * 3) % 4 - 1, [[1], [-1, 2], [], [0], [3, -2], [-4]][j % 6]) for j in range(r)]
    shift = S.choice("shift", [0, 1, 2, 3])
    tables = tables[shift:] + tables[:shift]
    rules = [Rule(lambda x, lo=lo: x >= lo, lambda x, off=off: [x + o for o in off]) for lo, off in tables]
    got = decompose_operations(ops, rules)
    want = ops
    for lo, off in tables:
        want = [y for x in want for y in ([x + o for o in off] if S.truth(x >= lo) else [x])]
    S.check(len(got) == len(want), "number of operations")
    if len(got) == len(want):
        S.check(S.all(True, *[S.eq(a, b) for a, b in zip(got, want)]), "every rule is applied to the output of the previous one")
