"""C08: circuit inverse, controlled circuits, gate layers, ancilla registers."""
import itertools

import sympy
from sympy import Symbol

from orquestra.quantum import circuits as C
from orquestra.quantum.circuits import Circuit, CustomGateDefinition, _gates, add_ancilla_register, apply_gate_to_qubits, create_layer_of_gates

from symx import matfun
from symx.api import scenario

from . import lib

BOUNDS = ("circuits of up to 3 operations (every built-in gate at any angle |a|<=40, custom unitary gates, free-symbol gates, "
          "dagger/control/power/exp wrappers of depth up to 2) on every tuple of up to 3 (4 thorough) qubits with idle qubits, distant qubits of registers up to 6 (7); "
          "every control position 0..n; layers over 0..5 qubits, every single-qubit gate factory with 0-3 symbolic or "
          "free-symbol parameters; qubit collections: every sequence of length <=3 over 4 indices, lists/tuples/sets/ranges; "
          "0..4 ancillas; longer: inverse/control of 4-8 operations, controls of circuits of up to 5 (6) qubits at every position, "
          "layers over 10-33 qubits, collections of up to 14 qubits, 5-12 ancillas")
OUTSIDE = ("non-unitary custom gates under inverse; sympy's matrix power and exponential are contract stubs on symbolic matrices "
           "(see C07); larger registers")
setup_symbolic = matfun.register
KNOWN = "dagger-of-fractional-power"

ONEQ = [b for b in lib.FIXED if b not in ("CNOT", "CZ", "SWAP", "ISWAP")] + ["RX", "RY", "RZ", "RH", "PHASE", "U3", "GPi", "GPi2", "Delay", "cust"]
TWOQ = ["CNOT", "CZ", "SWAP", "ISWAP", "CPHASE", "XX", "YY", "ZZ", "XY", "MS"]
THREEQ = ["cswap"]
T, U = Symbol("t"), Symbol("u")
CUST = CustomGateDefinition("cust", sympy.Matrix([[sympy.cos(T), -sympy.sin(T) * sympy.exp(-sympy.I * U)],
                                                  [sympy.sin(T) * sympy.exp(sympy.I * U), sympy.cos(T)]]), (T, U))


def base(S, b, pre="a"):
    if b in lib.FIXED:
        return getattr(C, b)
    if b == "cust":
        return CUST(*S.reals(pre, 2, -7, 7))
    if b == "cswap":
        return C.XX(*S.reals(pre, 1, -7, 7)).controlled(1)
    if b == "half":
        return C.X.power(0.5)
    if b == "roots":
        return C.RZ(*S.reals(pre, 1, -7, 7)).power(0.5)
    if b == "sqrtT":
        return C.T.power(0.5).dagger
    if b == "cube":
        return C.RX(*S.reals(pre, 1, -7, 7)).power(3).dagger
    if b == "inv":
        return C.GPi2(*S.reals(pre, 1, -7, 7)).power(-1)
    if b == "exp":
        return C.CustomGateDefinition("anti", sympy.Matrix([[0, -U], [U, 0]]), (U,))(*S.reals(pre, 1, -7, 7)).exp
    if b == "ctrl":
        return C.U3(*S.reals(pre, 3, -7, 7)).dagger.controlled(1)
    if b == "expctrl":
        return C.CustomGateDefinition("anti", sympy.Matrix([[0, -U], [U, 0]]), (U,))(*S.reals(pre, 1, -7, 7)).exp.controlled(1)
    return getattr(C, b)(*S.reals(pre, lib.PARAM[b], -40, 40))


WRAPPED = ["roots", "sqrtT", "cube", "inv", "ctrl"]


def unitary(S, c, env=None):
    return lib.tolist(S.ev(c.to_unitary(), env))


def placed(S, g, n, pre):
    q = S.choice(pre + "q", list(itertools.permutations(range(n), g.num_qubits)))
    return g(*q)


def inverse_of(S, c, env=None, key=None, rooted=False):
    before = list(c.operations)
    n = c.n_qubits
    M = lib.circuit_matrix(S, c.operations, n, env)
    inv = c.inverse()
    S.check(inv.n_qubits == n, "inverse has the same width")
    S.check(c.operations == before and c.n_qubits == n, "circuit unchanged")
    S.close_mat(unitary(S, inv, env), lib.dag(M), "inverse is the conjugate transpose", tol=1e-7, key=key)
    whole = c + inv
    S.check(whole.n_qubits == n, "width of circuit + inverse")
    if not rooted:  # for roots of symbolic matrices this follows from unitarity, a contract of the stub
        S.close_mat(unitary(S, whole, env), lib.eye(2**n), "circuit then inverse is the identity", tol=1e-7, key=key)
    twice = inv.inverse()
    S.check(twice.n_qubits == n, "width of double inverse")
    S.close_mat(unitary(S, twice, env), M, "inverse of the inverse", tol=1e-7, key=key)


@scenario()
def inverse_single(S):
    """one gate on a register with idle qubits"""
    b = S.choice("b", ONEQ + TWOQ + THREEQ + WRAPPED + ["half"])
    g = base(S, b)
    n = S.choice("n", [m for m in (1, 2, 3) if m >= g.num_qubits])
    inverse_of(S, Circuit([placed(S, g, n, "g")], n_qubits=n), key=KNOWN if b == "half" else None, rooted=b == "roots")


@scenario(weight=2)
def inverse_pairs(S):
    """two or three gates: order and placement"""
    k = S.choice("k", [2, 3])
    n = S.choice("n", [2, 3] if k == 2 or S.thorough else [2])
    pool = ["RX", "T", "cust", "ISWAP", "CPHASE", "XY"] if k == 2 else ["GPi2", "S", "SWAP", "MS"]
    if S.thorough:
        pool += ["U3", "inv", "ctrl"]
    ops = []
    for i in range(k):
        g = base(S, S.choice(f"b{i}", pool), f"a{i}")
        ops.append(placed(S, g, n, f"g{i}"))
    inverse_of(S, Circuit(ops, n_qubits=n))


@scenario()
def inverse_symbols(S):
    """free symbols: inverse for every value of the symbols"""
    x, y = Symbol("x"), Symbol("y")
    env = {x: S.real("vx", -7, 7), y: S.real("vy", -7, 7)}
    gs = {"RX": C.RX(x), "U3": C.U3(x, 2 * y, -x), "PHASE": C.PHASE(x * y), "cust": CUST(y, x), "c": C.RY(x + y).controlled(1),
          "d": C.XX(y).dagger, "cd": C.GPi2(x).controlled(1).dagger}
    k = S.choice("k", [1, 2])
    ops = [placed(S, gs[S.choice(f"b{i}", list(gs))], 2, f"g{i}") for i in range(k)]
    c = Circuit(ops, n_qubits=2)
    inverse_of(S, c, env)


@scenario()
def inverse_wide(S):
    """distant qubits of wider registers: non-commuting gates overlapping on one of them"""
    n = S.choice("n", [5, 6, 7] if S.thorough else [5, 6])
    a, b = S.choice("ab", [(0, n - 1), (n - 1, 0), (1, n - 2), (n - 2, 2), (0, 1), (n - 1, n - 3)])
    th = S.real("a", -7, 7)
    ops = {"rot": [C.CNOT(a, b), C.RX(th)(b), C.CNOT(b, a)], "phase": [C.H(a), C.CPHASE(th)(b, a), C.SX(b)],
           "one": [C.T(b), C.ISWAP(a, b), C.RY(th)(a)]}[S.choice("ops", ["rot", "phase", "one"])]
    inverse_of(S, Circuit(ops, n_qubits=n))


@scenario()
def inverse_empty(S):
    n = S.choice("n", [1, 2, 3])
    c = Circuit([], n_qubits=n)
    inv = c.inverse()
    S.check(inv.n_qubits == n and not inv.operations, "inverse of an empty circuit")
    S.close_mat(unitary(S, c + inv), lib.eye(2**n), "identity")


def controlled_of(S, c, k, env=None):
    n = c.n_qubits
    before = list(c.operations)
    M = lib.circuit_matrix(S, c.operations, n, env)
    d = c.controlled(k)
    S.check(c.operations == before and c.n_qubits == n, "circuit unchanged")
    S.check(d.n_qubits == n + 1, f"controlled circuit has one more qubit, control {k} of {n}")
    if d.n_qubits != n + 1:
        return
    rest = [q for q in range(n + 1) if q != k]
    want = lib.embed(lib.diag(lib.eye(2**n), M), [k] + rest, n + 1)
    S.close_mat(unitary(S, d, env), want, f"control {k}: identity when 0, the circuit on the others when 1", tol=1e-7)


@scenario()
def controlled_single(S):
    b = S.choice("b", ONEQ + TWOQ + ["roots", "sqrtT", "cube", "inv", "ctrl", "expctrl", "half"])
    g = base(S, b)
    n = S.choice("n", [m for m in (1, 2, 3) if m >= g.num_qubits and (m < 3 or g.num_qubits == 1 or S.thorough)])
    c = Circuit([placed(S, g, n, "g")], n_qubits=n)
    controlled_of(S, c, S.choice("k", list(range(n + 1))))


@scenario()
def controlled_wider(S):
    """several operations, idle qubits below, between and above"""
    n = S.choice("n", [2, 3, 4] if S.thorough else [2, 3])
    pool = ["RX", "CPHASE", "cust", "XY"] if n < 4 else ["RX", "XY"]
    k = S.choice("ops", [0, 2])
    ops = []
    for i in range(k):
        ops.append(placed(S, base(S, S.choice(f"b{i}", pool), f"a{i}"), n, f"g{i}"))
    controlled_of(S, Circuit(ops, n_qubits=n), S.choice("k", list(range(n + 1))))


@scenario()
def controlled_far(S):
    """controls and targets on a wider register"""
    n = S.choice("n", [4, 5] if S.thorough else [4])
    a, b = S.choice("ab", [(0, n - 1), (n - 1, 0), (1, n - 2)])
    th = S.real("a", -7, 7)
    ops = [C.CPHASE(th)(b, a), C.SX(b), C.RX(th)(a)]
    controlled_of(S, Circuit(ops, n_qubits=n), S.choice("k", [0, 1, n - 1, n]))


@scenario()
def controlled_symbols(S):
    x, y = Symbol("x"), Symbol("y")
    env = {x: S.real("vx", -7, 7), y: S.real("vy", -7, 7)}
    gs = {"RX": C.RX(x), "U3": C.U3(x, 2 * y, -x), "cust": CUST(y, x), "c": C.RY(x + y).controlled(1), "d": C.XX(y).dagger}
    ops = [placed(S, gs[S.choice(f"b{i}", list(gs))], 2, f"g{i}") for i in range(S.choice("m", [1, 2]))]
    controlled_of(S, Circuit(ops, n_qubits=2), S.choice("k", [0, 1, 2]), env)


@scenario()
def controlled_inverse(S):
    """control twice; control and inverse commute"""
    g = base(S, S.choice("b", ["U3", "cust", "ISWAP"]))
    c = Circuit([placed(S, g, 2, "g")], n_qubits=2)
    k, l = S.choice("k", [0, 1, 2]), S.choice("l", [0, 1, 2, 3] if S.thorough or g.num_qubits == 1 else [0, 3])
    controlled_of(S, c.controlled(k), l)
    S.close_mat(unitary(S, c.controlled(k).inverse()), unitary(S, c.inverse().controlled(k)), "control and inverse commute")


# ---------------------------------------------------------------- layers
FACTORIES = ["X", "H", "T", "RX", "RZ", "PHASE", "GPi", "U3", "Delay", "cust", "cust0", "wrapped"]


def factory(b):
    """(factory, number of parameters, needs parameter rows)"""
    if b == "cust":
        return CUST, 2
    if b == "cust0":
        return CustomGateDefinition("c0", sympy.Matrix([[0, 1], [sympy.I, 0]]), ()), 0
    if b == "wrapped":
        return C.T.dagger.power(2), None
    if b in lib.PARAM:
        return getattr(C, b), lib.PARAM[b]
    return getattr(C, b), None


def rows_for(S, p, n):
    """n parameter rows of length p: numbers or expressions with free symbols"""
    if p is None:
        return None
    kind = S.choice("kind", ["list", "tuples", "array", "symbols"])
    if kind == "symbols":
        return [[Symbol(f"s{i}") + j for j in range(p)] for i in range(n)]
    flat = S.reals("p", n * p, -9, 9)
    rows = [list(flat[i * p:(i + 1) * p]) for i in range(n)]
    if kind == "tuples":
        return tuple(tuple(r) for r in rows)
    if kind == "array" and n and p:
        return S.array(rows)
    return rows


def same_row(S, params, row):
    if len(params) != len(row):
        return S.eq(0, 1)
    return S.all(*[(S.truth(a == b) if isinstance(b, sympy.Basic) else S.eq(S.num(a), S.num(b))) for a, b in zip(params, row)])


@scenario()
def layers(S):
    n = S.choice("n", [0, 1, 2, 3, 4, 5] if S.thorough else [0, 1, 2, 3])
    b = S.choice("b", FACTORIES)
    f, p = factory(b)
    rows = rows_for(S, p, n)
    c = create_layer_of_gates(n, f, rows) if rows is not None else create_layer_of_gates(n, f)
    S.check(c.n_qubits == n, "width of the layer")
    S.check(len(c.operations) == n, "one gate per qubit")
    at = {}
    for op in c.operations:
        S.check(len(op.qubit_indices) == 1, "single-qubit operations")
        at[op.qubit_indices[0]] = op
    S.check(sorted(at) == list(range(n)), "every qubit 0..n-1 once")
    for q, op in at.items():
        if p is None:
            S.check(op.gate == f, "the given gate")
        else:
            S.check(same_row(S, op.params, rows[q]), f"parameter row of qubit {q}")
            S.check(op.gate.name == f(*rows[q]).name, "the given factory")
            S.close_mat(lib.tolist(S.ev(op.gate.matrix, {Symbol(f"s{i}"): 0.5 + i for i in range(n)})),
                        lib.tolist(S.ev(f(*rows[q]).matrix, {Symbol(f"s{i}"): 0.5 + i for i in range(n)})), "the gate")


COLLECTIONS = [list(t) for k in (0, 1, 2, 3) for t in itertools.product((0, 2, 1, 4), repeat=k)]
BIG = [[9, 1], [33, 8, 1], [8, 0, 16], [64, 2, 5, 64]]


@scenario(weight=2)
def apply_to_collection(S):
    """arbitrary collections: unordered, duplicates, sets, ranges"""
    import warnings

    qs = S.choice("qs", COLLECTIONS if S.thorough else [c for c in COLLECTIONS if len(c) < 3 or len(set(c)) < 3 or c[0] > c[1]])
    qs = S.choice("big", [None] + BIG) or qs if not qs else qs
    kind = S.choice("ctype", ["list", "tuple", "set", "dict"])
    col = {"list": list, "tuple": tuple, "set": set, "dict": dict.fromkeys}[kind](qs)
    distinct = set(qs)
    f, p = factory(S.choice("b", ["X", "RY", "U3", "cust"] if S.thorough or len(qs) < 3 else ["T", "GPi2", "cust"]))
    flat = S.reals("p", len(distinct) * (p or 0), -9, 9)
    rows = [list(flat[i * p:(i + 1) * p]) for i in range(len(distinct))] if p else None
    old = Circuit([C.RX(S.real("old"))(1), C.CNOT(2, 0)], n_qubits=S.choice("w", [3, 6])) if S.flag("existing") else Circuit()
    ops, w = list(old.operations), old.n_qubits
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = apply_gate_to_qubits(old, col, f, rows) if rows is not None else apply_gate_to_qubits(old, col, f)
    S.check(old.operations == ops and old.n_qubits == w, "the given circuit is not modified")
    S.check(len(c.operations) == len(ops) + len(distinct), "one gate per distinct qubit")
    S.check(all(a is b for a, b in zip(c.operations, ops)), "existing operations stay in place")
    new = c.operations[len(ops):]
    S.check(sorted(op.qubit_indices for op in new) == sorted((q,) for q in distinct), "every listed qubit once")
    S.check(c.n_qubits == max([w] + [q + 1 for q in distinct]), "width")
    if rows is None:
        S.check(all(op.gate == f for op in new), "the given gate")
    elif rows:
        S.check(all(op.gate.name == f(*rows[0]).name for op in new), "the given factory")
        S.check(S.any(*[S.all(*[same_row(S, op.params, rows[i]) for op, i in zip(new, perm)])
                        for perm in itertools.permutations(range(len(rows)))]), "each parameter row used once")


@scenario()
def wrong_rows(S):
    """too few or too many parameter rows are not silently accepted"""
    n = S.choice("n", [1, 2, 3])
    m = S.choice("m", [k for k in (0, 1, 2, 3, 4) if k != n])
    rows = [[v] for v in S.reals("p", m, -9, 9)]
    r = S.catch(create_layer_of_gates, n, C.RX, rows)
    S.check(hasattr(r, "exc"), "wrong number of rows is an error")


@scenario()
def ancillas(S):
    a = S.choice("a", [0, 1, 2, 3, 4])
    n = S.choice("n", [0, 1, 2] if S.thorough or a < 3 else [1])
    ops = []
    if n and S.flag("ops"):
        for i in range(2):
            ops.append(placed(S, base(S, S.choice(f"b{i}", ["RX", "cust", "CPHASE", "ISWAP"][: 4 if n > 1 else 2]), f"a{i}"), n, f"g{i}"))
    c = Circuit(ops, n_qubits=n)
    before = list(c.operations)
    d = add_ancilla_register(c, a)
    S.check(c.operations == before and c.n_qubits == n, "circuit unchanged")
    S.check(d.n_qubits == n + a, "wider by exactly the requested number")
    if d.n_qubits != n + a or n + a == 0:
        return
    S.close_mat(unitary(S, d), lib.kron(lib.circuit_matrix(S, ops, n), lib.eye(2**a)), "action unchanged")


@scenario()
def ancillas_wide(S):
    """idle top qubits count as part of the register"""
    n, a = S.choice("n", [3, 5, 9]), S.choice("a", [1, 2, 3])
    c = Circuit([C.RX(S.real("t"))(S.choice("q", [0, 1, 2]))], n_qubits=n)
    d = add_ancilla_register(c, a)
    S.check(d.n_qubits == n + a, "wider by exactly the requested number")
    S.check(d.operations[0] is c.operations[0], "existing operations stay")
    S.check(sorted(q for op in d.operations[1:] for q in op.qubit_indices) == list(range(n, n + a)), "only the new qubits are touched")
    e = add_ancilla_register(d, 2)
    S.check(e.n_qubits == n + a + 2, "repeated extension")


# ---------------- sizes
def long_ops(S, L, n, pattern):
    th = S.real("th", -7, 7)
    one = [lambda: C.RX(th), lambda: C.T, lambda: C.H, lambda: C.PHASE(th), lambda: C.SX, lambda: C.RY(th), lambda: C.S]
    ops = []
    for i in range(L):
        if pattern == "same":
            ops.append(one[(i * 3 + L) % 7]()(n - 1))
        elif pattern == "pair":
            ops.append((C.CNOT if i % 3 == 1 else C.CPHASE(th) if i % 3 == 2 else C.XX(th))(0, n - 1))
        elif pattern == "equal":
            ops.append(C.T(i % n) if i % 2 else C.H(i % n))
        else:
            q = (2 * i + 1) % n
            ops.append(one[i % 7]()(q) if i % 2 == 0 else C.CNOT(q, (q + 1 + (i % 2 and n > 2)) % n))
    return ops


@scenario()
def inverse_long(S):
    """4-8 operations: all on the same qubit(s), equal gates, or spread"""
    L = S.choice("len", [4, 5, 6, 8])
    n = S.choice("n", [2, 3])
    ops = long_ops(S, L, n, S.choice("pattern", ["same", "pair", "equal", "mixed"]))
    inverse_of(S, Circuit(ops, n_qubits=n))


@scenario()
def controlled_long(S):
    L = S.choice("len", [4, 7])
    n = S.choice("n", [2, 3])
    ops = long_ops(S, L, n, S.choice("pattern", ["same", "pair", "mixed"]))
    controlled_of(S, Circuit(ops, n_qubits=n), S.choice("k", list(range(n + 1))))


@scenario()
def controlled_every_position(S):
    """a gate on distant qubits of a 4-6 qubit circuit, control at every index"""
    n = S.choice("n", [4, 5, 6] if S.thorough else [4, 5])
    th = S.real("a", -7, 7)
    t = S.choice("t", [(n - 1, 0), (0, n - 1), (n - 1, n - 2), (n - 2,), (2, 3), (n - 1,), (1, 3, 0)])
    g = {1: C.RX(th), 2: C.XY(th), 3: C.CPHASE(th).controlled(1)}[len(t)]
    controlled_of(S, Circuit([g(*t)], n_qubits=n), S.choice("k", list(range(n + 1))))


@scenario()
def controlled_structure(S):
    """control on registers too wide for a matrix: every operation keeps its gate, moves its qubits by the rule"""
    n = S.choice("n", [8, 12, 20, 40])
    th = S.real("a", -7, 7)
    qs = [(0,), (n - 1,), (n - 2, 1), (7, 3), (n // 2, n // 2 - 1), (1, n - 1)]
    ops = [(C.RX(th) if len(q) == 1 else C.XX(th))(*q) for q in qs]
    k = S.choice("k", [0, 1, 3, 4, 7, n // 2, n - 2, n - 1, n])
    d = Circuit(ops, n_qubits=n).controlled(k)
    S.check(d.n_qubits == n + 1, "width")
    S.check(len(d.operations) == len(ops), "number of operations")
    for o, p in zip(ops, d.operations):
        want = (k,) + tuple(q + (q >= k) for q in o.qubit_indices)
        S.check(tuple(p.qubit_indices) == want, f"control {k} of {n}: qubits of an operation", info=(p.qubit_indices, want))
        S.close_mat(lib.tolist(S.ev(p.gate.matrix)), lib.diag(lib.eye(2 ** (len(want) - 1)), lib.tolist(S.ev(o.gate.matrix))),
                    "controlled gate")
    inv = Circuit(ops, n_qubits=n).inverse()
    S.check(inv.n_qubits == n and [tuple(o.qubit_indices) for o in inv.operations] == [q for q in qs[::-1]], "inverse structure")
    for o, p in zip(ops[::-1], inv.operations):
        S.close_mat(lib.tolist(S.ev(p.gate.matrix)), lib.dag(lib.tolist(S.ev(o.gate.matrix))), "inverted gate")


@scenario()
def layers_wide(S):
    n = S.choice("n", [6, 9, 10, 11, 12, 17, 33])
    b = S.choice("b", ["H", "RX", "U3", "cust"])
    f, p = factory(b)
    base_v = S.real("p", -9, 9)
    rows = [[base_v + 3 * i + j for j in range(p)] for i in range(n)] if p else None
    c = create_layer_of_gates(n, f, rows) if rows else create_layer_of_gates(n, f)
    S.check(c.n_qubits == n and len(c.operations) == n, "one gate per qubit")
    at = {op.qubit_indices[0]: op for op in c.operations if len(op.qubit_indices) == 1}
    S.check(sorted(at) == list(range(n)), "every qubit 0..n-1 once")
    for q, op in at.items():
        if rows:
            S.check(same_row(S, op.params, rows[q]), f"parameter row of qubit {q}")
            S.check(op.gate.name == f(*rows[q]).name, "the given factory")
        else:
            S.check(op.gate == f, "the given gate")


@scenario()
def collections_wide(S):
    import warnings

    qs = S.choice("qs", [list(range(12)), list(range(13, 2, -1)), [10, 2, 1, 20, 11, 12, 0], [8, 16, 0, 24, 1, 9, 17], [30, 3, 3, 30, 4, 11, 4],
                         [1] * 5 + [0], [100, 10, 1000, 1]])
    kind = S.choice("ctype", ["list", "tuple", "set", "range"])
    if kind == "range":
        qs = list(range(3, 3 + 2 * len(qs), 2))
        col = range(3, 3 + 2 * len(qs), 2)
    else:
        col = {"list": list, "tuple": tuple, "set": set}[kind](qs)
    distinct = set(qs)
    f, p = factory(S.choice("b", ["X", "RY", "cust"]))
    v = S.real("p", -9, 9)
    rows = [[v + 10 * i + j for j in range(p)] for i in range(len(distinct))] if p else None
    old = Circuit([C.RX(v)(1), C.CNOT(2, 0)]) if S.flag("existing") else Circuit()
    ops = list(old.operations)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = apply_gate_to_qubits(old, col, f, rows) if rows else apply_gate_to_qubits(old, col, f)
    S.check(all(a is b for a, b in zip(c.operations, ops)), "existing operations stay in place")
    new = c.operations[len(ops):]
    S.check(sorted(op.qubit_indices for op in new) == sorted((q,) for q in distinct), "every listed qubit once")
    S.check(c.n_qubits == max([old.n_qubits] + [q + 1 for q in distinct]), "width")
    if rows:
        S.check(all(op.gate.name == f(*rows[0]).name for op in new), "the given factory")
        used = [[i for i, r in enumerate(rows) if S.truth(same_row(S, op.params, r))] for op in new]
        S.check(sorted(u[0] for u in used if len(u) == 1) == list(range(len(rows))), "each parameter row used once")
    else:
        S.check(all(op.gate == f for op in new), "the given gate")


@scenario()
def ancillas_structure(S):
    """idle qubits below, between and above; many ancillas"""
    n, a = S.choice("n", [1, 4, 8, 10]), S.choice("a", [1, 5, 9, 12])
    th = S.real("t", -7, 7)
    ops = [C.RX(th)(q) for q in S.choice("qs", [[], [0], [n - 1], [n // 2], [0, n - 1]])]
    c = Circuit(ops, n_qubits=n)
    d = add_ancilla_register(c, a)
    S.check(c.n_qubits == n and len(c.operations) == len(ops), "circuit unchanged")
    S.check(d.n_qubits == n + a, "wider by exactly the requested number")
    old = [op for op in d.operations if min(op.qubit_indices) < n]
    S.check(len(old) == len(ops) and all(x == y for x, y in zip(old, ops)), "operations on the original qubits")
    for op in d.operations:
        if min(op.qubit_indices) >= n:
            m = lib.tolist(S.ev(op.gate.matrix))
            S.close_mat(m, lib.eye(len(m)), "ancillas are left alone")
        else:
            S.check(max(op.qubit_indices) < n, "no operation couples an ancilla")
