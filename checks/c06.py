"""C06: binding parameters commutes with evaluating the circuit."""
import itertools

import sympy
from sympy import Symbol

from orquestra.quantum import circuits as C
from orquestra.quantum.circuits import Circuit, CustomGateDefinition, MultiPhaseOperation, ResetOperation, _gates

from symx.api import scenario

from . import lib

BOUNDS = ("gates RX..U3, every parametric built-in, custom gates (1-2 parameters, arbitrary matrices) and MultiPhase/Reset "
          "operations; parameters: numbers, symbols and 12 expression shapes over up to 3 symbols with arbitrary real "
          "coefficients; maps: every assignment of each symbol to {absent, arbitrary number, exact number, another symbol, "
          "expression, expression of itself} plus superfluous symbols; wrappers control/dagger nested up to 3; circuits of "
          "up to 3 operations on up to 3 qubits; binding in one or two steps (single-symbol steps for up to 12 symbols); maps and gates with up to 12 symbols, symbols of one name with different assumptions, complex and integer values, circuits of up to 10 (16) operations; values of symbols |v|<=3")
OUTSIDE = "expressions of other shapes; floating-point rounding"

X, Y, Z, W = [Symbol(n) for n in ("x", "y", "z", "w")]


def shapes(k, m):
    return [X, X + Y, k * X, X * Y - m, sympy.cos(X) * Y, X**2 - Y, (X + 1) * (Y - Z), X / 3 + sympy.pi * Y,
            X - X * Y + Z, sympy.exp(X) + Y, X * Y * Z, 2 * Y - X]


VALS = ["absent", "number", "zero", "y", "z", "self+1", "expr", "sympy", "int"]


def value(S, name, sym, kind):
    if kind == "number":
        return S.real("n_" + name, -3, 3)
    if kind == "zero":
        return 0.0
    if kind == "int":
        return 2
    if kind == "sympy":
        return sympy.Rational(1, 3) + S.number(S.real("n_" + name, -3, 3))
    if kind == "y":
        return Y if sym is not Y else X
    if kind == "z":
        return Z if sym is not Z else X
    if kind == "self+1":
        return sym + 1
    if kind == "expr":
        return 2 * Y - X * Z
    raise AssertionError(kind)


def mapping(S, pre, syms, kinds):
    m = {}
    for s in syms:
        k = S.choice(pre + s.name, kinds)
        if k != "absent":
            m[s] = value(S, pre + s.name, s, k)
    return m


def meaning(S, m, env):
    """Value of every symbol after substitution by m, in the environment env."""
    out = dict(env)
    for s, v in m.items():
        out[s] = S.ev(v, env) if isinstance(v, sympy.Basic) else S.num(v)
    return out


def syms_of(params):
    r = set()
    for p in params:
        r |= set(getattr(p, "free_symbols", ()))
    return r


def check_free(S, obj, label):
    fs = list(obj.free_symbols)
    S.check(len(fs) == len(set(fs)), label + ": no repeated free symbol")
    S.check(set(fs) == syms_of(obj.params), label + ": free symbols are those of the parameters", info=(fs, obj.params))


def check_bound(S, gate, m, bound, env, label, matrix=True):
    env2 = meaning(S, m, env)
    S.check(len(gate.params) == len(bound.params), label + ": number of parameters")
    for p, q in zip(gate.params, bound.params):
        if not isinstance(p, sympy.Basic):
            S.check(not isinstance(q, sympy.Basic) and S.eq(S.num(p), S.num(q)), label + ": numeric parameter untouched")
            continue
        S.close(S.ev(p, env2), S.ev(q, env) if isinstance(q, sympy.Basic) else S.num(q), label + ": parameter value",
                info=(p, m, q))
        if not (set(p.free_symbols) & set(m)):
            S.check(p == q, label + ": parameter without mapped symbols untouched")
        want = set()
        for s in p.free_symbols:
            want |= set(getattr(m[s], "free_symbols", ())) if s in m else {s}
        S.check(set(getattr(q, "free_symbols", ())) <= want, label + ": remaining symbols", info=(p, m, q))
    check_free(S, bound, label)
    if matrix:
        S.close_mat(S.ev(gate.matrix, env2), S.ev(bound.matrix, env), label + ": matrix of the bound gate", tol=1e-8)


def envs(S):
    return {s: S.real("v_" + s.name, -3, 3) for s in (X, Y, Z, W)}


def wrapped(S, g, names):
    for w in names:
        g = {"c": lambda: g.controlled(1), "c2": lambda: g.controlled(2), "d": lambda: g.dagger,
             "C": lambda: _gates.ControlledGate(g, 1), "D": lambda: _gates.Dagger(g)}[w]()
    return g


@scenario()
def expressions(S):
    """every shape x every kind of map on one gate"""
    k, m = S.number(S.real("k", -2, 2)), S.number(S.real("m", -2, 2))
    i = S.pick("e", len(shapes(k, m)))
    e = shapes(k, m)[i]
    g = C.RX(e)
    kinds = VALS if S.thorough else VALS[:7]
    M = mapping(S, "m", [X, Y] if Y in e.free_symbols else [X], kinds)
    if S.flag("extra"):
        M[W] = S.real("nw", -3, 3)
        M[Symbol("unrelated")] = 1
    env = envs(S)
    before = dict(M)
    b = g.bind(M)
    S.check(M == before, "map untouched")
    S.check(isinstance(b, _gates.MatrixFactoryGate) and b.name == "RX" and b.num_qubits == 1, "same kind of gate")
    check_bound(S, g, M, b, env, f"shape {i}", matrix=False)
    check_free(S, g, "unbound")


@scenario()
def every_gate(S):
    name = S.choice("g", list(lib.PARAM))
    n = lib.PARAM[name]
    env = envs(S)
    args = [X, S.real("a", -7, 7), 2 * X - Y] if S.flag("order") else [X + Y, Y, X]
    g = getattr(C, name)(*args[:n])
    w = S.choice("w", [(), ("d",), ("c",), ("c", "d")] if not S.thorough else
                 [(), ("d",), ("c",), ("c", "d"), ("d", "c2"), ("C", "D", "C")])
    g = wrapped(S, g, w)
    if g.num_qubits > 3:
        return
    M = mapping(S, "m", [X, Y], ["absent", "number", "y", "zero"])
    check_bound(S, g, M, g.bind(M), env, name)
    S.check(g.bind(M).num_qubits == g.num_qubits, "gate width")


@scenario()
def wrappers(S):
    env = envs(S)
    d = S.choice("depth", [1, 2, 3])
    ws = [S.choice(f"w{i}", ["c", "d", "C", "D"]) for i in range(d)]
    base = S.choice("base", ["RY", "custom", "X"])
    if base == "RY":
        g = C.RY(X * 2 - Y)
    elif base == "X":
        g = C.X
    else:
        a, b = Symbol("a"), Symbol("x")
        g = CustomGateDefinition("cust", sympy.Matrix([[a, b], [-b * a, S.number(S.cplx("m", 2))]]), (a, b))(Y, X + Y)
    g = wrapped(S, g, ws)
    if g.num_qubits > 3:
        return
    M = mapping(S, "m", [X, Y], ["absent", "number", "y", "self+1"])
    check_bound(S, g, M, g.bind(M), env, base)


@scenario()
def custom_gates(S):
    """formal parameter names that clash with the actual arguments"""
    env = envs(S)
    n = S.choice("n", [1, 2])
    f = S.choice("formal", [(X, Y), (Y, X), (Symbol("a"), Symbol("b")), (X, Symbol("a"))])
    M = sympy.eye(2**n)
    M[0, 0] = f[0] * S.number(S.real("k", -2, 2))
    M[0, 1] = f[1] - f[0] ** 2
    M[1, 0] = S.number(S.cplx("c", 2))
    M[1, 1] = f[0] * f[1]
    args = [S.choice("p0", [X, Y, Y + 1, X * Y, "num"]), S.choice("p1", [X, Y, Y - X, Z, "num"])]
    args = [S.real(f"num{i}", -2, 2) if a == "num" else a for i, a in enumerate(args)]
    g = CustomGateDefinition("cust", M, f)(*args)
    # meaning of the unbound gate: formal parameters replaced by the arguments' values
    vals = [S.ev(a, env) if isinstance(a, sympy.Basic) else S.num(a) for a in args]
    S.close_mat(S.ev(g.matrix, env), S.ev(M, {**env, **dict(zip(f, vals))}), "custom matrix at its arguments")
    mp = mapping(S, "m", [X, Y], ["absent", "number", "y"] if not S.thorough else VALS[:6])
    check_bound(S, g, mp, g.bind(mp), env, "custom gate")
    check_free(S, g, "custom gate")


@scenario()
def replace_parameters(S):
    """replace_params replaces all parameters on every kind of gate operation"""
    name = S.choice("g", ["RX", "U3", "MS", "custom"])
    n = {"RX": 1, "U3": 3, "MS": 2, "custom": 2}[name]
    a, b = Symbol("a"), Symbol("b")
    mk = (lambda *p: CustomGateDefinition("cu", sympy.Matrix([[a, b], [b, 1]]), (a, b))(*p)) if name == "custom" \
        else getattr(C, name)
    old = [X, 0.5, Y + Z][:n]
    new = tuple([S.real("n0", -7, 7), X * Y, S.real("n2", -7, 7)][:n])
    w = S.choice("w", [(), ("d",), ("c",), ("c", "d"), ("d", "c"), ("C", "D", "c")])
    env = envs(S)
    g = wrapped(S, mk(*old), w)
    if g.num_qubits > 3:
        return
    op = g(*range(g.num_qubits))
    r = op.replace_params(new)
    S.check(tuple(r.qubit_indices) == tuple(op.qubit_indices), "qubits kept")
    want = wrapped(S, mk(*new), w)
    S.check(len(r.params) == n, "number of parameters")
    S.close_mat(S.ev(r.gate.matrix, env), S.ev(want.matrix, env), "matrix with the new parameters")
    check_free(S, r, "replaced")


@scenario()
def partial_steps(S):
    """several partial steps equal one step"""
    env = envs(S)
    k, m = S.number(S.real("k", -2, 2)), S.number(S.real("m", -2, 2))
    e = S.choice("e", list(range(12)) if S.thorough else [1, 3, 4, 6, 8, 10])
    g = C.U3(shapes(k, m)[e], Y, S.real("a", -7, 7))
    g = wrapped(S, g, S.choice("w", [(), ("c",), ("d", "c")]))
    full = {X: S.real("nx", -3, 3), Y: S.real("ny", -3, 3), Z: S.real("nz", -3, 3)}
    first = S.subset("first", [X, Y, Z])
    m1 = {s: full[s] for s in first}
    m2 = {s: full[s] for s in full if s not in first} if S.flag("rest only") else full
    once, twice = g.bind(full), g.bind(m1).bind(m2)
    S.check(not list(once.free_symbols), "completely bound gate has no free symbols")
    S.check(not list(twice.free_symbols), "gate bound in two steps has no free symbols")
    for p, q in zip(once.params, twice.params):
        S.close(S.ev(p) if isinstance(p, sympy.Basic) else S.num(p), S.ev(q) if isinstance(q, sympy.Basic) else S.num(q),
                "parameters after one and two steps")
    check_bound(S, g, m1, g.bind(m1), env, "first step", matrix=False)


def circuit_op(S, i, kind, k):
    q = S.choice(f"q{i}", [0, 1])
    if kind == "RX":
        return C.RX(k * X)(q)
    if kind == "c-PHASE":
        return C.PHASE(Y - X).controlled(1)(q, 1 - q)
    if kind == "XX_d":
        return C.XX(Y).dagger(q, 1 - q)
    if kind == "num":
        return C.RY(S.real(f"a{i}", -7, 7))(q)
    if kind == "H":
        return C.H(q)
    a = Symbol("x")
    return CustomGateDefinition("cust", sympy.Matrix([[a, 1], [S.number(S.real(f"c{i}", -2, 2)), -a]]), (a,))(Y * Z)(q)


KINDS = ["RX", "c-PHASE", "XX_d", "num", "cust", "H"]


def first_appearance(S, c, label):
    seen = []
    groups = []
    for op in c.operations:
        new = syms_of(op.params) - set(seen)
        groups.append(new)
        seen += list(new)
    fs = list(c.free_symbols)
    S.check(len(fs) == len(seen) and set(fs) == set(seen), label + ": exactly the parameters' symbols", info=fs)
    pos = 0
    for gset in groups:
        S.check(set(fs[pos:pos + len(gset)]) == gset, label + ": first-appearance order", info=fs)
        pos += len(gset)


@scenario(weight=2)
def circuits(S):
    env = envs(S)
    L = S.choice("len", [1, 2, 3] if S.thorough else [1, 2])
    k = S.number(S.real("k", -2, 2))
    ops = [circuit_op(S, i, S.choice(f"k{i}", KINDS if L < 3 else KINDS[:5]), k) for i in range(L)]
    n = 2 + S.choice("idle", [0, 1]) if L == 1 else 2
    c = Circuit(ops, n_qubits=n)
    M = mapping(S, "m", [X, Y], ["absent", "number", "y"])
    b = c.bind(M)
    env2 = meaning(S, M, env)
    S.check(b.n_qubits == c.n_qubits, "register width kept")
    S.check(len(b.operations) == len(c.operations), "number of operations")
    for o, p in zip(c.operations, b.operations):
        S.check(tuple(o.qubit_indices) == tuple(p.qubit_indices), "qubits kept")
        check_bound(S, o.gate, M, p.gate, env, "operation")
    U, V = c.to_unitary(), b.to_unitary()
    S.close_mat(S.ev(U, env2), S.ev(V, env), "circuit matrix: bind then evaluate = evaluate then substitute", tol=1e-8)
    first_appearance(S, c, "circuit")
    first_appearance(S, b, "bound circuit")


@scenario()
def total_binding(S):
    """all symbols bound to numbers: the numeric evaluation path agrees with the symbolic one"""
    vals = {X: S.real("nx", -3, 3), Y: S.real("ny", -3, 3), Z: S.real("nz", -3, 3)}
    L = S.choice("len", [1, 2, 3])
    ops = [circuit_op(S, i, S.choice(f"k{i}", KINDS if L < 3 else KINDS[:5:2]), sympy.Rational(1, 2)) for i in range(L)]
    c = Circuit(ops, n_qubits=2)
    b = c.bind(vals)
    S.check(list(b.free_symbols) == [], "nothing left to bind")
    S.close_mat(S.ev(c.to_unitary(), vals), S.arr(b.to_unitary()), "matrix of the bound circuit", tol=1e-8)
    steps = c.bind({X: vals[X]}).bind({Y: vals[Y], Z: vals[Z], W: 3})
    S.check(list(steps.free_symbols) == [], "nothing left after two steps")
    S.close_mat(S.arr(steps.to_unitary()), S.arr(b.to_unitary()), "matrix after two steps", tol=1e-8)


@scenario()
def non_gate_operations(S):
    env = envs(S)
    k, m = S.number(S.real("k", -2, 2)), S.number(S.real("m", -2, 2))
    sh = shapes(k, m)
    i = S.choice("e", [0, 1, 2, 6, 8])
    ps = (sh[i], S.real("a", -7, 7), Y, X + Y)
    op = MultiPhaseOperation(ps)
    M = mapping(S, "m", [X, Y], VALS[:6])
    b = op.bind(M)
    S.check(isinstance(b, MultiPhaseOperation), "same kind of operation")
    check_bound(S, op, M, b, env, "multi-phase", matrix=False)
    check_free(S, op, "multi-phase")
    q = S.choice("q", [0, 3])
    r = ResetOperation(q)
    rb = r.bind(M)
    S.check(isinstance(rb, ResetOperation) and tuple(rb.qubit_indices) == (q,) and not list(rb.free_symbols),
            "bound reset acts on the same qubit")
    c = Circuit([C.RX(Z)(0), op, r, C.RY(X)(0)], n_qubits=5)
    cb = c.bind(M)
    S.check(cb.n_qubits == 5 and [type(o) for o in cb.operations] == [type(o) for o in c.operations], "structure kept")
    for o, p in zip(c.operations, cb.operations):
        S.check(tuple(o.qubit_indices) == tuple(p.qubit_indices), "qubits kept in a mixed circuit")
        check_bound(S, o, M, p, env, "mixed circuit", matrix=False)
    first_appearance(S, c, "mixed circuit")
    first_appearance(S, cb, "bound mixed circuit")


@scenario()
def multiphase_action(S):
    """binding all symbols, then applying, multiplies amplitudes by the phases' values"""
    vals = {X: S.real("nx", -3, 3), Y: S.real("ny", -3, 3), Z: S.real("nz", -3, 3)}
    ps = (X * Y, S.real("a", -7, 7), Y - X, Z)
    op = MultiPhaseOperation(ps).bind(vals)
    psi = [1, 2j, S.cplx("p", 1), -1]
    if S.symbolic:
        from symx import arr

        v = arr.sarray(psi)
    else:
        import numpy as np

        v = np.array(psi, dtype=complex)
    out = op.apply(v)
    ph = [S.ev(p, vals) if isinstance(p, sympy.Basic) else S.num(p) for p in ps]
    S.close_all([(o, S.cis(t) * a) for o, t, a in zip(list(out), ph, psi)], "phases applied", tol=1e-8)


@scenario()
def refuse(S):
    """power and exponential wrappers refuse to bind"""
    b = S.choice("base", ["T", "RX"])
    g = C.T if b == "T" else C.RX(S.real("a", -7, 7))
    w = S.choice("w", ["p2", "p.5", "exp", "p-1"])
    g = {"p2": lambda: g.power(2), "p.5": lambda: g.power(0.5), "exp": lambda: g.exp, "p-1": lambda: g.power(-1)}[w]()
    outer = S.choice("outer", ["", "c", "d", "C", "D", "circuit", "op"])
    if outer in ("c", "d", "C", "D"):
        g = wrapped(S, g, [outer])
    m = S.choice("map", [{X: 1.0}, {}, {X: Y, Y: X}])
    q = tuple(range(g.num_qubits))
    if outer == "circuit":
        S.raises("circuit refuses to bind", (NotImplementedError,), Circuit([C.RY(X)(0), g(*q)]).bind, m)
    elif outer == "op":
        S.raises("operation refuses to bind", (NotImplementedError,), g(*q).bind, m)
    else:
        S.raises("gate refuses to bind", (NotImplementedError,), g.bind, m)


@scenario()
def circuit_free_symbols(S):
    """appearance order over several operations and repeated symbols"""
    pool = [lambda: C.RX(Z * X)(0), lambda: C.U3(Y, 1, X)(1), lambda: C.RY(W)(0), lambda: C.H(0),
            lambda: C.RZ(S.real("a", -7, 7))(1), lambda: C.RX(Symbol("a10") - Symbol("a9"))(0),
            lambda: C.MS(Z, Y).controlled(1)(0, 1, 2)]
    L = S.choice("len", [0, 1, 2, 3])
    ops = [S.choice(f"o{i}", pool)() for i in range(L)]
    c = Circuit(ops, n_qubits=3)
    first_appearance(S, c, "circuit")
    S.check((not c.free_symbols) == all(not syms_of(o.params) for o in ops), "no free symbols iff no parameter has any")


# ---------------- sizes
@scenario()
def many_symbols(S):
    """gates with 3-12 parameters and maps of up to 14 entries"""
    n = S.choice("n", [3, 6, 10, 12])
    ps = [Symbol(f"p{i}") for i in range(n)]
    formal = [Symbol(f"p{(i * 5 + 1) % n}") for i in range(n)] if S.flag("clash") and n != 10 else [Symbol(f"f{i}") for i in range(n)]
    M = sympy.Matrix([[sum(((i + 1) * f for i, f in enumerate(formal)), sympy.Integer(0)), formal[0]],
                      [formal[-1] * 2, sum((f * (-1) ** i for i, f in enumerate(formal)), sympy.Integer(0))]])
    form = S.choice("form", ["bare", "mixed"])
    k = S.number(S.real("k", -2, 2))
    args = ps if form == "bare" else [p if i % 3 == 0 else (k * p + ps[(i + 1) % n] if i % 3 == 1 else S.real("num", -7, 7))
                                      for i, p in enumerate(ps)]
    g = CustomGateDefinition("wide", M, tuple(formal))(*args)
    g = wrapped(S, g, S.choice("w", [(), ("c", "D")]))
    env = {s: S.real("v_" + s.name, -2, 2) for s in ps + formal}
    kind = S.choice("map", ["all", "half", "rotate", "extra", "steps"])
    vals = {p: S.real(f"n{i}", -2, 2) for i, p in enumerate(ps)}
    m = {"all": lambda: dict(vals), "half": lambda: {p: vals[p] for p in ps[::2]},
         "rotate": lambda: {p: ps[(i + 1) % n] for i, p in enumerate(ps)},
         "extra": lambda: {**{Symbol(f"e{i}"): i for i in range(6)}, ps[1]: vals[ps[1]], ps[0]: ps[2]},
         "steps": lambda: dict(vals)}[kind]()
    if kind == "steps":
        b = g
        for p in ps:
            b = b.bind({p: vals[p]})
        S.check(not list(b.free_symbols), "nothing left after single-symbol steps")
    else:
        b = g.bind(m)
    check_bound(S, g, m, b, env, kind)


@scenario()
def same_name_symbols(S):
    """symbols that share a name but differ in assumptions are different symbols"""
    ass = S.choice("assumption", [{"real": True}, {"positive": True}, {"integer": True}, {"commutative": True, "real": True}])
    X2 = Symbol("x", **ass)
    env = {**envs(S), X2: S.real("v_x2", 0.1, 3)}
    g = S.choice("g", [lambda: C.RX(X2), lambda: C.U3(X2, X, 2 * X2 - X), lambda: C.PHASE(X2 * X + Y).controlled(1),
                       lambda: CustomGateDefinition("cu", sympy.Matrix([[X, X2], [Y, X2]]), (X, X2, Y))(X2, X, 1)])()
    m = S.choice("map", [{X: "a"}, {X2: "a"}, {X: "a", X2: "b"}, {X: "a", Y: "b", Z: "a", W: "b"}, {X2: "a", Y: "b", Z: "a", W: "b"}])
    vals = {"a": S.real("na", 0.1, 3), "b": S.real("nb", 0.1, 3)}
    m = {s: vals[v] for s, v in m.items()}
    check_bound(S, g, m, g.bind(m), env, "symbols of one name")
    check_free(S, g, "symbols of one name")


@scenario()
def value_kinds(S):
    """integers, complex numbers and sympy numbers as bound values"""
    a, b = Symbol("a"), Symbol("b")
    kind = S.choice("kind", ["int", "complex", "rational", "pi", "I", "negint"])
    v = {"int": lambda: S.int("n", -20, 20), "complex": lambda: S.cplx("n", 2), "rational": lambda: sympy.Rational(2, 7),
         "pi": lambda: sympy.pi / 2, "I": lambda: sympy.I * 2 + 1, "negint": lambda: -3}[kind]()
    lin = CustomGateDefinition("lin", sympy.Matrix([[a, b], [2 * b - a, 1]]), (a, b))
    g = {"lin": lambda: lin(X, Y * 2 + X), "rot": lambda: C.U3(X, Y - X, 0.25)}[
        S.choice("g", ["lin"] + (["rot"] if kind not in ("complex", "I") else []))]()
    g = wrapped(S, g, S.choice("w", [(), ("c",), ("d",)] if kind not in ("complex", "I") else [(), ("c",)]))
    env = envs(S)
    m = {X: v, Y: S.real("ny", -3, 3)} if S.flag("both") else {X: v}
    check_bound(S, g, m, g.bind(m), env, f"value kind {kind}")


@scenario()
def long_circuits(S):
    """4-10 operations: same operations in the same order, order of the free symbols, matrix"""
    L = S.choice("len", [4, 7, 10] if not S.thorough else [4, 6, 7, 8, 10, 12, 16])
    ps = [Symbol(n) for n in ("b", "a", "x10", "x9", "B", "c", "_z", "x1", "t[1]", "t[0]", "aa", "A")]
    num = S.real("num", -3, 3)
    st = S.choice("start", [0, 3, 5])
    ops = []
    for i in range(L):
        p, q = ps[(st + i) % len(ps)], ps[(st + 2 * i + 1) % len(ps)]
        pool = [lambda: C.RX(p)(i % 2), lambda: C.CPHASE(q + p)(1, 0), lambda: C.RY(num)(1), lambda: C.U3(q, p, 1)(0), lambda: C.H(0),
                lambda: C.RZ(p * q).dagger(1), lambda: C.PHASE(q).controlled(1)(0, 1)]
        ops.append(pool[(i * i + st) % len(pool)]())
    c = Circuit(ops, n_qubits=2)
    which = S.choice("map", ["none", "some", "swap"])
    vals = {p: S.real(f"n{i}", -3, 3) for i, p in enumerate(ps)}
    m = {} if which == "none" else {p: vals[p] for p in ps[1::2]} if which == "some" else {ps[0]: ps[1], ps[1]: ps[0], ps[5]: ps[0] + 1}
    env = {p: S.real(f"v{i}", -3, 3) for i, p in enumerate(ps)}
    b = c.bind(m)
    S.check(b.n_qubits == 2 and len(b.operations) == L, "structure kept")
    for o, p in zip(c.operations, b.operations):
        S.check(tuple(o.qubit_indices) == tuple(p.qubit_indices), "qubits kept")
        check_bound(S, o.gate, m, p.gate, env, "operation of a long circuit")
    first_appearance(S, c, "long circuit")
    first_appearance(S, b, "bound long circuit")
    full = b.bind(env)
    S.check(not list(full.free_symbols), "bound completely")
