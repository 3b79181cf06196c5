"""C05: circuits survive JSON serialisation unchanged in structure and meaning."""
import io
import itertools
import json
import pathlib

import numpy as np
import sympy
from sympy import Rational, Symbol

from orquestra.quantum import circuits as C
from orquestra.quantum.circuits import Circuit, CustomGateDefinition, _gates, apply_gate_to_qubits
from orquestra.quantum.circuits import _serde

from symx.api import scenario

from . import lib

BOUNDS = ("every built-in gate with arbitrary numeric parameters |x|<=40; parameters: Python numbers (arbitrary, plus a list "
          "of 15-17 digit, tiny, huge, integer and complex literals), bare symbols over 28 names (incl. names used by sympy "
          "and indexed symbols), expressions with arbitrary real coefficients over those symbols; custom gates on 1-2 qubits "
          "with arbitrary numeric and symbolic matrices; every nesting of control(1,2)/dagger/power/exponential up to depth "
          "3 (4 thorough), built through the API and directly; circuits of up to 3 operations, idle qubits, empty circuits, "
          "circuit sets up to 3; arbitrary real and integer exponents; two definitions of one name; circuits of up to 15 (40) operations, gates with up to 14 parameters, up to 12 definitions, 6 controls, qubit numbers to 120, sets of up to 12; matrices compared for every value of the symbols; numpy indices, widths, exponents and parameters (fixed ones)")
OUTSIDE = ("symbols with assumptions; number formatting beyond the listed literals is abstracted (a number printed with repr "
           "precision is assumed to parse back); sympy constants other than pi, E, I next to a symbol of the same name")

NAMES = ["x", "theta_1", "alpha", "beta", "gamma", "zeta", "S", "N", "Q", "O", "C", "E", "I", "pi", "e", "j", "cos", "exp",
         "Symbol", "Integer", "Float", "x[0]", "x[3]", "x[31]", "p[2]", "_symbol_0", "θ", "lambda_"]
LITERALS = [0, 1, -3, 7, 0.0, -0.0, 0.1, -0.25, 0.1 + 0.2, -4932.525024544681, 1e-17, 1.5e-9, 123456789.12345679, 1e22,
            3.141592653589793, -1.5707963267948966, 2 + 3j, -1.5j, 0.1 + 0.30000000000000004j, 2.220446049250313e-16]
COEFS = [0.1, 0.123456789012345, -1.5e-9, 3.0, 98765.4321012345, 0.30000000000000004]


def prim(g):
    while hasattr(g, "wrapped_gate"):
        g = g.wrapped_gate
    return g


def is_py_number(x):
    return not isinstance(x, sympy.Basic)


def same_param(S, a, b, env, label):
    if is_py_number(a):
        ok = not isinstance(b, sympy.Basic) or not b.free_symbols
        S.check(ok, label + ": a number stays a number", info=(a, b))
        if not ok:
            return
        x, y = S.num(a), S.num(b)
        S.check(S.eq(x, y), label + ": number restored exactly", info=(a, b))
    elif isinstance(a, sympy.Symbol):
        S.check(a == b, label + ": bare symbol restored exactly", info=(a, b))
    else:
        fa = set(a.free_symbols)
        fb = set(getattr(b, "free_symbols", ()))
        S.check(fa == fb, label + ": expression over the same symbols", info=(a, b))
        if fa == fb:
            S.close(S.ev(a, env), S.ev(b, env), label + ": expression value", tol=1e-9, info=(a, b))


def same_gate(S, a, b, env, label):
    kinds = [_gates.MatrixFactoryGate, _gates.ControlledGate, _gates.Dagger, _gates.Exponential, _gates.Power]
    for k in kinds:
        S.check(isinstance(a, k) == isinstance(b, k), f"{label}: kind of gate ({k.__name__})", info=(str(a), str(b)))
        if isinstance(a, k) != isinstance(b, k):
            return
    S.check(a.num_qubits == b.num_qubits, label + ": gate width")
    if isinstance(a, _gates.ControlledGate):
        S.check(a.num_control_qubits == b.num_control_qubits, label + ": number of controls")
    if isinstance(a, _gates.Power):
        S.check(S.eq(S.num(a.exponent), S.num(b.exponent)), label + ": exponent")
    if hasattr(a, "wrapped_gate"):
        return same_gate(S, a.wrapped_gate, b.wrapped_gate, env, label)
    S.check(a.name == b.name, label + ": gate name")
    S.check(a.is_hermitian == b.is_hermitian, label + ": hermitian flag")
    S.check(len(a.params) == len(b.params), label + ": number of parameters")
    for p, q in zip(a.params, b.params):
        same_param(S, p, q, env, label)
    fa, fb = isinstance(a.matrix_factory, _gates.CustomGateMatrixFactory), isinstance(
        b.matrix_factory, _gates.CustomGateMatrixFactory)
    S.check(fa == fb, label + ": custom or built-in")
    if fa and fb:
        da, db = a.matrix_factory.gate_definition, b.matrix_factory.gate_definition
        S.check(da.gate_name == db.gate_name, label + ": custom definition's name")
        S.check(tuple(da.params_ordering) == tuple(db.params_ordering), label + ": custom parameter order")
        e2 = dict(env)
        for i, s in enumerate(da.params_ordering):
            e2.setdefault(s, S.real(f"formal{i}", -3, 3))
        S.close_mat(S.ev(da.matrix, e2), S.ev(db.matrix, e2), label + ": custom definition's matrix")
    S.close_mat(S.ev(a.matrix, env), S.ev(b.matrix, env), label + ": matrix for every value of its symbols")


def same_circuit(S, a, b, env, label="round trip", equal=True, matrices=True):
    S.check(isinstance(b, Circuit), label + ": is a circuit")
    S.check(a.n_qubits == b.n_qubits, label + ": register width")
    S.check(len(a.operations) == len(b.operations), label + ": number of operations")
    for x, y in zip(a.operations, b.operations):
        S.check(tuple(x.qubit_indices) == tuple(y.qubit_indices), label + ": qubit indices")
        same_gate(S, x.gate, y.gate, env, label)
        if matrices:
            S.close_mat(S.ev(x.gate.matrix, env), S.ev(y.gate.matrix, env), label + ": wrapped gate's matrix")
    S.check(list(a.free_symbols) == list(b.free_symbols), label + ": free symbols")
    if equal:
        S.check(a == b, label + ": compares equal")


def via_json(c, S=None):
    d = _serde.to_dict(c)
    return _serde.circuit_from_dict(lib.through_json(S, d) if S is not None else json.loads(json.dumps(d)))


def via_file(S, c, how):
    if how == "json":
        return via_json(c)
    if how == "stringio":
        f = io.StringIO()
        _serde.save_circuit(c, f)
        f.seek(0)
        return _serde.load_circuit(f)
    p = S.tmp("circuit.json")
    if how == "path":
        p = pathlib.Path(p)
    _serde.save_circuit(c, p)
    return _serde.load_circuit(p)


def qubits(S, k, n):
    return S.choice("qs", list(itertools.permutations(range(n), k)))


@scenario()
def builtin_gates(S):
    name = S.choice("g", lib.FIXED + list(lib.PARAM))
    how = S.choice("how", ["json", "path"] if not S.thorough else ["json", "path", "str", "stringio"])
    ps = S.reals("a", lib.PARAM.get(name, 0), -40, 40)
    g = getattr(C, name)(*ps) if name in lib.PARAM else getattr(C, name)
    n = 3
    c = Circuit([g(*qubits(S, g.num_qubits, n))], n_qubits=n + S.choice("idle", [0, 2]))
    same_circuit(S, c, via_file(S, c, how), {})


@scenario()
def literal_numbers(S):
    v = S.choice("v", LITERALS)
    g = S.choice("g", ["RX", "custom"])
    if g == "RX":
        gate = C.RX(v)
    else:
        t = Symbol("t")
        gate = CustomGateDefinition("W", sympy.Matrix([[1, t], [0, 1]]), (t,))(v)
    c = Circuit([gate(0)])
    d = via_json(c)
    b = d.operations[0].gate.params[0]
    S.check(not getattr(b, "free_symbols", ()) and complex(b) == complex(v), f"literal {v!r} restored exactly", info=b)
    S.check(d == c, "compares equal")


@scenario()
def float_coefficients(S):
    """sympy floating-point coefficients inside expressions: 1e-12 relative"""
    k = S.choice("k", COEFS)
    k2 = S.choice("k2", COEFS[:3])
    x, y = Symbol("x"), Symbol("x[3]")
    e = k * x + k2 * y * x + k
    c = Circuit([C.RX(e)(0)])
    r = via_json(c).operations[0].gate.params[0]
    ok = set(getattr(r, "free_symbols", ())) == {x, y}
    S.check(ok, "same symbols")
    if ok:
        for vx, vy in [(0, 0), (1, 0), (0, 1), (1, 1)]:
            a, b = complex(e.subs({x: vx, y: vy})), complex(r.subs({x: vx, y: vy}))
            S.check(abs(a - b) <= 1e-12 * max(abs(a), 1e-300), "coefficient to 1e-12 relative", info=(a, b))


@scenario()
def bare_symbols(S):
    s = Symbol(S.choice("s", NAMES))
    t = Symbol(S.choice("t", NAMES if S.thorough else ["x", "beta", "x[3]", "I"]))
    env = {s: S.real("vs", -3, 3), t: S.real("vt", -3, 3)}
    c = Circuit([C.RX(s)(0), C.U3(t, s, S.real("num", -40, 40))(1)], n_qubits=3)
    same_circuit(S, c, via_json(c), env)


def exprs(s, t, k, m):
    return [s + t, k * s + m * t, 2 * s - t / 3, s * t + k, k * (s + 1) ** 2 - s, -s, s**2 * t, sympy.pi * s - t,
            sympy.cos(s) + sympy.sin(t), sympy.exp(s) * t, sympy.sqrt(2) * s + Rational(1, 7) * t, (k + 1) * s]


@scenario()
def expressions(S):
    pairs = [("x", "y"), ("x", "x[3]"), ("x[0]", "x[31]"), ("beta", "gamma"), ("S", "I"), ("pi", "E"), ("cos", "exp"),
             ("N", "Integer"), ("theta_1", "theta"), ("_symbol_1", "_symbol_0"), ("Symbol", "sin"), ("e", "j")]
    a, b = S.choice("names", pairs)
    s, t = Symbol(a), Symbol(b)
    k, m = S.number(S.real("k", -4, 4)), S.number(S.real("m", -4, 4))
    i = S.pick("e", len(exprs(s, t, k, m)))
    e = exprs(s, t, k, m)[i]
    env = {s: S.real("vs", -3, 3), t: S.real("vt", -3, 3)}
    g = S.choice("g", ["RZ", "c-RY_dagger"] if not S.thorough else ["RZ", "c-RY_dagger", "U3"])
    gate = {"RZ": lambda: C.RZ(e), "c-RY_dagger": lambda: C.RY(e).dagger.controlled(1), "U3": lambda: C.U3(e, s, e)}[g]()
    q = tuple(range(gate.num_qubits))
    c = Circuit([gate(*q)])
    r = via_json(c)
    h = prim(r.operations[0].gate)
    S.check(len(h.params) == len(gate.params), "number of parameters")
    for p, p2 in zip(gate.params, h.params):
        same_param(S, p, p2, env, f"expression {i}")
    S.check(list(r.free_symbols) == list(c.free_symbols), "free symbols")
    S.check(type(r.operations[0].gate) is type(gate), "wrapper")


@scenario()
def constants_and_symbols(S):
    """symbols that share their name with a constant or function of the same expression"""
    a, e = S.choice("e", [("pi", sympy.pi * Symbol("pi")), ("I", sympy.I * Symbol("I") + 1), ("E", sympy.E + 2 * Symbol("E")),
                          ("cos", sympy.cos(Symbol("cos")) * Symbol("cos")), ("exp", sympy.exp(2 * Symbol("exp"))),
                          ("sqrt", sympy.sqrt(3) * Symbol("sqrt")), ("pi", sympy.cos(sympy.pi * Symbol("pi") / 3))])
    s = Symbol(a)
    r = via_json(Circuit([C.RX(e)(0)])).operations[0].gate.params[0]
    S.check(getattr(r, "free_symbols", None) == {s}, "same symbol")
    for v in (0, 1, Rational(1, 2)):
        S.check(abs(complex(e.subs(s, v)) - complex(r.subs(s, v))) < 1e-12, f"value of {e}", info=r)


def wrap(S, g, w, mode):
    if mode == "direct":
        return {"c1": lambda: _gates.ControlledGate(g, 1), "c2": lambda: _gates.ControlledGate(g, 2),
                "dg": lambda: _gates.Dagger(g), "p2": lambda: _gates.Power(g, 2), "p.5": lambda: _gates.Power(g, 0.5),
                "p-": lambda: _gates.Power(g, -1.3), "ex": lambda: _gates.Exponential(g)}[w]()
    return {"c1": lambda: g.controlled(1), "c2": lambda: g.controlled(2), "dg": lambda: g.dagger, "p2": lambda: g.power(2),
            "p.5": lambda: g.power(0.5), "p-": lambda: g.power(-1.3), "ex": lambda: g.exp}[w]()


WR = ["c1", "c2", "dg", "p2", "p.5", "ex", "p-"]


def base_gate(S, b):
    if b == "T":
        return C.T
    if b == "RX":
        return C.RX(S.real("a", -7, 7))
    t = Symbol("t")
    d = CustomGateDefinition("my gate", sympy.Matrix([[t, S.number(S.real("m", -2, 2))], [1, 2 * t]]), (t,))
    return d(S.real("a", -7, 7))


@scenario(weight=3)
def wrapper_nesting(S):
    depth = S.choice("depth", [1, 2, 3, 4] if S.thorough else [1, 2, 3])
    b = S.choice("base", ["T", "RX", "custom"] if depth < 3 else ["RX", "custom"])
    mode = S.choice("mode", ["api", "direct"])
    g = base_gate(S, b)
    for i in range(depth):
        g = wrap(S, g, S.choice(f"w{i}", WR if depth < 3 or S.thorough else WR[1:6]), mode)
        if g.num_qubits > 4:
            return
    qs = tuple(range(g.num_qubits))[::-1]
    c = Circuit([g(*qs)], n_qubits=g.num_qubits + 1)
    same_circuit(S, c, via_json(c), {}, matrices=False)


@scenario()
def exponents(S):
    """powers with an arbitrary exponent, and literals that are easily mangled by formatting"""
    kind = S.choice("kind", ["real", "int", "literal"])
    e = {"real": lambda: S.real("e", -50, 50), "int": lambda: S.int("n", -20, 20),
         "literal": lambda: S.choice("lit", [1 / 7, -0.1, 0.30000000000000004, 1e-9, 1e22, 123456789.12345679, 0, 0.0, 1.0, 17])}[kind]()
    g = {"T": lambda: C.T, "RX": lambda: C.RX(S.real("a", -7, 7)), "custom": lambda: base_gate(S, "custom")}[S.choice("base", ["T", "RX", "custom"])]()
    how = S.choice("nest", ["power", "c1", "dg", "p2", "ex"])
    g = _gates.Power(g, e)
    if how != "power":
        g = wrap(S, g, how, S.choice("mode", ["api", "direct"]))
    c = Circuit([g(*range(g.num_qubits))])
    d = via_json(c, S)
    S.check(len(d.operations) == 1 and tuple(d.operations[0].qubit_indices) == tuple(range(g.num_qubits)), "operations")
    h = d.operations[0].gate
    exps = []
    for x in (g, h):
        exps.append([])
        while hasattr(x, "wrapped_gate"):
            exps[-1].append((type(x).__name__, getattr(x, "exponent", None), getattr(x, "num_control_qubits", None)))
            x = x.wrapped_gate
    S.check(len(exps[0]) == len(exps[1]), "nesting depth")
    for (ka, ea, na), (kb, eb, nb) in zip(*exps):
        S.check(ka == kb and na == nb, "wrapper kinds", info=(ka, kb))
        if ea is not None:
            S.check(S.eq(S.num(ea), S.num(eb)), "exponent survives exactly")
    S.check(prim(h).name == prim(g).name, "innermost gate")


@scenario()
def same_name_definitions(S):
    """two custom gates that share a name: refused, or kept apart"""
    t = Symbol("t")
    mk = lambda m, ps: CustomGateDefinition("G", sympy.Matrix(m), ps)
    v, w = S.real("v", -2, 2), S.real("w", -2, 2)
    d1 = mk([[1, t], [S.number(v), 2]], (t,))
    kind = S.choice("second", ["entry", "formula", "parameter", "size", "arity"])
    d2 = {"entry": lambda: mk([[1, t], [S.number(w), 2]], (t,)), "formula": lambda: mk([[1, 2 * t], [S.number(v), 2]], (t,)),
          "parameter": lambda: mk([[1, Symbol("u")], [S.number(v), 2]], (Symbol("u"),)),
          "size": lambda: mk((sympy.eye(4) * t).tolist(), (t,)), "arity": lambda: mk([[1, 2], [S.number(v), 2]], ())}[kind]()
    x = S.real("x", -3, 3)
    g1, g2 = d1(x), (d2() if kind == "arity" else d2(x))
    wrapped = S.choice("wrapped", ["no", "c1", "dg"])
    if wrapped != "no":
        g2 = wrap(S, g2, wrapped, "api")
    ops = [g1(0), g2(*range(g2.num_qubits))]
    c = Circuit(ops if S.flag("order") else ops[::-1], n_qubits=3)
    try:
        d = via_json(c, S)
    except ValueError:
        # refusing is right unless the definitions agree
        if kind == "entry":
            S.check(S.no(S.eq(v, w)), "equal definitions are accepted")
        return
    if kind != "entry":
        S.fail(f"two different definitions ({kind}) were merged silently")
    for a, b in zip(c.operations, d.operations):
        S.close_mat(S.ev(a.gate.matrix, {}), S.ev(b.gate.matrix, {}), "matrix of the gates sharing a name", tol=1e-4)


@scenario()
def symbolic_wrappers(S):
    """wrappers that allow free symbols, matrix of the whole nest compared"""
    depth = S.choice("depth", [1, 2, 3])
    s, t = Symbol("x"), Symbol("x[3]")
    env = {s: S.real("vs", -3, 3), t: S.real("vt", -3, 3)}
    b = S.choice("base", ["RX", "custom"])
    if b == "RX":
        g = C.RY(2 * s - t)
    else:
        al, be = Symbol("beta"), Symbol("alpha")
        g = CustomGateDefinition("V", sympy.Matrix([[al, be * al], [-be, S.number(S.cplx("m", 2))]]), (al, be))(s * t, t)
    for i in range(depth):
        g = wrap(S, g, S.choice(f"w{i}", ["c1", "c2", "dg"]), "direct")
        if g.num_qubits > (4 if S.thorough else 3):
            return
    c = Circuit([g(*range(g.num_qubits))])
    same_circuit(S, c, via_json(c), env)


CNAMES = ["U", "my gate", "x", "Union", "Callable", "GatePrototype", "make_parametric_gate_prototype", "sx", "rx", "Gate",
          "__name__", "Controlled", "Dag", "t_0"]


def custom_def(S, name, k, n, pre="", signs=True):
    """Definition with k parameters on n qubits: numeric entries arbitrary (one sign pattern unless `signs`)."""
    ps = [Symbol(p) for p in S.choice(pre + "ps", [("theta", "gamma"), ("x[1]", "x"), ("b", "a")])[:k]]
    m = sympy.zeros(2**n, 2**n)
    for i in range(2**n):
        if signs:
            m[i, i] = S.number(S.cplx(f"{pre}d{i}", 2))
        else:
            m[i, i] = S.number(S.real(f"{pre}d{i}", 0.01, 2)) - sympy.I * S.number(S.real(f"{pre}e{i}", 0.01, 2)) * i
    m[0, 1] = ps[0] if k else S.number(S.real(pre + "off", 0.01, 2))
    m[1, 0] = ps[1] * 2 - ps[0] if k > 1 else sympy.Integer(3) / 7
    return CustomGateDefinition(name, m, tuple(ps))


@scenario(weight=2)
def custom_gates(S):
    name = S.choice("name", CNAMES if S.thorough else CNAMES[:9])
    k = S.choice("k", [0, 1, 2])
    n = S.choice("n", [1, 2])
    d = custom_def(S, name, k, n, signs=False)
    x, y = Symbol("x"), Symbol("alpha")
    args = [S.real("a", -3, 3), x, y * x + S.number(S.real("b", -2, 2)), Symbol("theta"), Symbol("gamma")]
    ps = [S.choice(f"p{i}", list(range(5))) if S.thorough or name in CNAMES[:2] else 4 - i for i in range(k)]
    g = d(*[args[i] for i in ps])
    env = {s: S.real("v_" + s.name, -3, 3) for s in (x, y, Symbol("theta"), Symbol("gamma"))}
    c = Circuit([g(*range(n)), C.X(0), g(*range(n))])
    same_circuit(S, c, via_json(c), env)


@scenario()
def several_definitions(S):
    d1, d2 = custom_def(S, "B", 1, 1, "one.", False), custom_def(S, "A", 2, 1, "two.", False)
    x = Symbol("x")
    w1, w2 = S.choice("w1", ["none", "c1", "dg"]), S.choice("w2", ["none", "dg", "c1"])
    g1 = d1(S.real("a", -3, 3))
    g2 = d2(x, Symbol("gamma"))
    if w1 != "none":
        g1 = wrap(S, g1, w1, "api")
    if w2 != "none":
        g2 = wrap(S, g2, w2, "direct")
    ops = [g1(*range(g1.num_qubits)), g2(*range(g2.num_qubits))]
    if S.flag("swap"):
        ops = ops[::-1]
    ops.append(d2(1, S.real("z", -3, 3))(0))
    env = {x: S.real("vx", -3, 3), Symbol("gamma"): S.real("vg", -3, 3)}
    c = Circuit(ops, n_qubits=3)
    same_circuit(S, c, via_json(c), env)


@scenario()
def definition_alone(S):
    d = custom_def(S, "D", S.choice("k", [0, 1, 2]), S.choice("n", [1, 2] if S.thorough else [1]))
    r = _serde.custom_gate_def_from_dict(json.loads(json.dumps(_serde.to_dict(d))))
    S.check(r.gate_name == d.gate_name and tuple(r.params_ordering) == tuple(d.params_ordering), "definition header")
    env = {s: S.real("v_" + s.name, -3, 3) for s in d.params_ordering}
    S.close_mat(S.ev(d.matrix, env), S.ev(r.matrix, env), "definition matrix")


def some_op(S, i, n):
    k = S.choice(f"op{i}", ["CNOT", "RX", "c-T", "XX_dagger", "sym"])
    x = Symbol("x")
    g = {"CNOT": lambda: C.CNOT, "RX": lambda: C.RX(S.real(f"a{i}", -7, 7)), "c-T": lambda: C.T.controlled(1),
         "XX_dagger": lambda: C.XX(S.real(f"a{i}", -7, 7)).dagger, "sym": lambda: C.PHASE(x * 2)}[k]()
    q = S.choice(f"q{i}", [0, 1])
    return g(q, q + 1 if q == 0 else 0) if g.num_qubits == 2 else g(q)


@scenario()
def circuits(S):
    L = S.choice("len", [0, 1, 2, 3] if S.thorough else [0, 1, 2])
    ops = [some_op(S, i, 2) for i in range(L)]
    w = S.choice("width", [None, 3])
    c = Circuit(ops, n_qubits=w) if w or ops else Circuit()
    how = S.choice("how", ["json", "str", "path", "stringio"]) if L < 2 else "json"
    same_circuit(S, c, via_file(S, c, how), {Symbol("x"): S.real("vx", -7, 7)})


@scenario()
def circuit_sets(S):
    L = S.choice("len", [0, 1, 2, 3])
    cs = []
    for i in range(L):
        kind = S.choice(f"c{i}", ["empty", "idle", "ops"])
        cs.append({"empty": lambda: Circuit(), "idle": lambda: Circuit([C.X(0)], n_qubits=4),
                   "ops": lambda: Circuit([C.RX(S.real(f"a{i}", -7, 7))(1), C.H.controlled(1)(0, 2)])}[kind]())
    how = S.choice("how", ["json", "str", "path", "stringio"])
    if how == "json":
        r = _serde.circuitset_from_dict(json.loads(json.dumps(_serde.to_dict(cs))))
    elif how == "stringio":
        f = io.StringIO()
        _serde.save_circuitset(cs, f)
        f.seek(0)
        r = _serde.load_circuitset(f)
    else:
        p = S.tmp("set.json")
        p = pathlib.Path(p) if how == "path" else p
        _serde.save_circuitset(cs, p)
        r = _serde.load_circuitset(p)
    S.check(len(r) == len(cs), "size of the set")
    for a, b in zip(cs, r):
        same_circuit(S, a, b, {})


# ---------------- sizes: many operations, symbols, parameters, definitions, controls, qubits
@scenario()
def many_symbols(S):
    """one gate with 3-14 parameters, each with its own symbol (index order differs from text order)"""
    n = S.choice("n", [3, 10, 11, 14] if not S.thorough else [3, 8, 10, 11, 12, 14])
    style = S.choice("style", ["theta_{}", "p[{}]", "x{}y"])
    ps = [Symbol(style.format(i)) for i in range(n)]
    formal = [Symbol(f"f{i}") for i in range(n)]
    M = sympy.Matrix([[sum(((i + 1) * f for i, f in enumerate(formal)), sympy.Integer(0)), formal[0]],
                      [formal[-1], sum((f * (-1) ** i for i, f in enumerate(formal)), sympy.Integer(0))]])
    d = CustomGateDefinition("wide", M, tuple(formal) if S.flag("order") else tuple(formal[::-1]))
    form = S.choice("form", ["bare", "scaled", "mixed"])
    k, num = S.number(S.real("k", 0.1, 4)), S.real("num", 0.1, 7)
    args = ps if form == "bare" else [2 * p - 1 for p in ps] if form == "scaled" else \
        [p if i % 3 == 0 else (k * p if i % 3 == 1 else num + i) for i, p in enumerate(ps)]
    g = d(*args)
    if S.flag("wrapped"):
        g = g.dagger.controlled(1)
    env = {p: S.real(f"v{i}", -3, 3) for i, p in enumerate(ps)}
    c = Circuit([g(*range(g.num_qubits)), C.RX(ps[-1] + ps[1])(0)])
    same_circuit(S, c, via_json(c), env)


@scenario()
def one_long_expression(S):
    """one parameter that depends on 3-14 symbols"""
    n = S.choice("n", [3, 9, 10, 11, 14])
    style = S.choice("style", ["theta_{}", "p[{}]", "b{}", "I{}"])
    ps = [Symbol(style.format(i)) for i in range(n)]
    k = S.number(S.real("k", -4, 4))
    e = {"sum": lambda: sum(((i + 1) * p for i, p in enumerate(ps)), k), "product": lambda: sympy.Mul(*ps) * k,
         "chain": lambda: sum((ps[i] * ps[i - 1] for i in range(n)), k)}[S.choice("e", ["sum", "product", "chain"])]()
    c = Circuit([C.RZ(e)(0)])
    r = via_json(c)
    env = {p: S.real(f"v{i}", -2, 2) for i, p in enumerate(ps)}
    same_param(S, e, r.operations[0].gate.params[0], env, "long expression")
    S.check(list(r.free_symbols) == list(c.free_symbols), "free symbols")


@scenario()
def many_operations(S):
    """circuits of 6-15 operations of every kind, wide registers"""
    L = S.choice("len", [6, 9, 11, 15] if not S.thorough else [6, 9, 11, 15, 24, 40])
    n = S.choice("n", [3, 12, 120])
    x = Symbol("x")
    d = custom_def(S, "B", 1, 1, "one.", False)
    a = S.real("a", 0.1, 7)
    pool = [lambda: C.RX(a), lambda: C.CNOT, lambda: d(x), lambda: C.T.dagger.controlled(2), lambda: C.X.power(0.5), lambda: C.H,
            lambda: C.U3(x, 0.5, a), lambda: d(a).controlled(1), lambda: C.S.exp, lambda: C.MS(a, x)]
    ops = []
    for i in range(L):
        g = pool[(3 * i + S.choice("start", [0, 1, 4]) if i == 0 else i * 7 + len(ops)) % len(pool)]()
        ops.append(g(*[(5 * i + 11 * j + (j > 0)) % n if n > 3 else (i + j) % 3 for j in range(g.num_qubits)]))
    c = Circuit(ops, n_qubits=n)
    same_circuit(S, c, via_json(c), {x: S.real("vx", -3, 3)}, matrices=False)


@scenario()
def many_controls(S):
    k = S.choice("k", [3, 4, 5, 6])
    b = S.choice("base", ["T", "RX", "custom"])
    g = base_gate(S, b)
    m = S.choice("mode", ["api", "twice", "inner"])
    g = {"api": lambda: g.controlled(k), "twice": lambda: _gates.ControlledGate(_gates.ControlledGate(g, k - 2), 2),
         "inner": lambda: _gates.Dagger(_gates.ControlledGate(g, k))}[m]()
    n = g.num_qubits
    c = Circuit([g(*[(3 * i + 1) % n if n % 3 else (n - 1 - i) for i in range(n)])], n_qubits=n + 1)
    d = via_json(c)
    S.check(d.n_qubits == n + 1 and tuple(d.operations[0].qubit_indices) == tuple(c.operations[0].qubit_indices), "qubits")
    x, y = c.operations[0].gate, d.operations[0].gate
    while hasattr(x, "wrapped_gate"):
        S.check(type(x) is type(y), "wrapper kinds")
        if type(x) is not type(y):
            return
        S.check(getattr(x, "num_control_qubits", 0) == getattr(y, "num_control_qubits", 0), "number of controls")
        x, y = x.wrapped_gate, y.wrapped_gate
    same_gate(S, x, y, {}, "innermost gate")
    S.check(d == c, "compares equal")


DEFNAMES = [("G", "g"), ("gate_1", "gate_10"), ("U", "U3 "), ("a b", "ab"), ("Ry", "RY_"), ("x", "x_dagger"), ("é", "e"), ("A", "AA")]


@scenario()
def similar_definition_names(S):
    """two definitions whose names differ by case, suffix or accents"""
    a, b = S.choice("names", DEFNAMES)
    d1, d2 = custom_def(S, a, 0, 1, "one.", False), custom_def(S, b, S.choice("k", [0, 1]), 1, "two.", False)
    g1, g2 = d1(), d2(*[S.real("a", 0.1, 3)][: len(d2.params_ordering)])
    w = S.choice("w", ["none", "dg", "c1"])
    if w != "none":
        g2 = wrap(S, g2, w, "api")
    ops = [g1(0), g2(*range(g2.num_qubits)), g1(1)]
    c = Circuit(ops if S.flag("order") else ops[::-1], n_qubits=2)
    same_circuit(S, c, via_json(c), {})


@scenario()
def many_definitions(S):
    n = S.choice("n", [4, 9, 10, 12])
    t = Symbol("t")
    k = S.real("k", 0.1, 2)
    ds = [CustomGateDefinition(f"def{i}", sympy.Matrix([[t, S.number(k) * (i + 1)], [i, -t]]), (t,)) for i in range(n)]
    order = S.choice("order", ["up", "down"])
    a = S.real("a", 0.1, 3)
    ops = [d(a + i)(i % 3) for i, d in enumerate(ds)]
    c = Circuit(ops if order == "up" else ops[::-1], n_qubits=3)
    same_circuit(S, c, via_json(c), {})


@scenario()
def large_sets(S):
    n = S.choice("n", [4, 10, 12])
    how = S.choice("how", ["json", "path"])
    x, a = Symbol("x"), S.real("a", 0.1, 3)
    cs = [Circuit([C.RX(a + i)(i), C.PHASE(x * (i + 1))(0)], n_qubits=i + 1 + i % 2) if i % 4 else Circuit(n_qubits=i)
          for i in range(n)]
    if how == "json":
        r = _serde.circuitset_from_dict(json.loads(json.dumps(_serde.to_dict(cs))))
    else:
        p = S.tmp("set.json")
        _serde.save_circuitset(cs, p)
        r = _serde.load_circuitset(p)
    S.check(len(r) == len(cs), "size of the set")
    for i, (a, b) in enumerate(zip(cs, r)):
        same_circuit(S, a, b, {x: S.real("vx", -3, 3)}, f"member {i}", matrices=False)


NUMPY = {"int64": np.int64, "int32": np.int32, "uint8": np.uint8}


@scenario()
def numpy_numbers(S):
    """indices, widths, controls, exponents and parameters that came out of numpy arrays"""
    q = NUMPY[S.choice("index", list(NUMPY))]
    p = S.choice("p", [np.float64(0.1), np.float32(0.3), np.float64(1e-17), np.int64(3), np.int8(-2), np.float32(1e-5), np.complex128(1 - 2j),
                       np.complex64(0.1 + 0.7j), np.float64(-4932.525024544681)])
    k = S.choice("kind", ["plain", "controlled", "power", "layer", "width", "custom", "bound"])
    a = S.real("a", 0.1, 3)
    n = None
    if k == "plain":
        ops = [C.RX(p)(q(2)), C.CNOT(q(0), q(1)), C.RZ(a)(q(1))]
    elif k == "controlled":
        ops = [C.RX(p).controlled(q(2))(q(3), 0, q(1)), C.X.dagger.controlled(q(1))(q(1), q(0))]
    elif k == "power":
        ops = [C.T.power(q(3))(q(0)), C.X.power(np.float64(0.5))(1), C.T.power(np.float32(0.25)).dagger(q(2))]
    elif k == "layer":
        qs = S.choice("qs", [[0, 1], [3, 1, 2]])
        ops = apply_gate_to_qubits(Circuit(), np.array(qs, dtype=q), C.RX, np.full((len(qs), 1), p)).operations
    elif k == "width":
        ops, n = [C.X(q(1))], q(5)
    elif k == "custom":
        t = Symbol("t")
        ops = [CustomGateDefinition("g", sympy.Matrix([[t, a], [2, -t]]), (t,))(p)(q(1))]
    else:
        x = Symbol("x")
        ops = Circuit([C.RX(x)(q(0)), C.XX(x)(q(0), q(2))]).bind({x: p}).operations
    c = Circuit(ops, n_qubits=n)
    how = S.choice("how", ["json", "path"])
    same_circuit(S, c, via_file(S, c, how), {}, matrices=k not in ("power",))
