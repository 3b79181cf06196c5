"""C02: every built-in gate is a valid unitary that keeps its textbook identities."""
import itertools

import numpy as np
import sympy
from orquestra.quantum import circuits as C
from orquestra.quantum.circuits import _builtin_gates

from symx.api import scenario

from . import lib

BOUNDS = ("all 27 built-in gates; every real angle in [-40,40] (unitarity also for |x|<=1e5) and every integer-typed angle in [-200,200], both as a numeric argument and as a free symbol "
          "(cos/sin are atoms constrained by c^2+s^2=1, so the verdict does not depend on the interval unless the code "
          "branches on the angle), affine expressions of a symbol; every pair of angles for the group laws; exact "
          "special angles as Python/sympy numbers; exact multiples k*pi/q of pi (|k|<=13, q<=3, thorough 5) against the same real number and in the group laws; "
          "the same value as Python, numpy (float64/32, int64/32, uint8) and sympy numbers")
OUTSIDE = "complex parameter values; floating-point rounding"

FIXED, PARAM = lib.FIXED, lib.PARAM
TWO = {"CNOT", "CZ", "SWAP", "ISWAP", "CPHASE", "XX", "YY", "ZZ", "XY", "MS"}
ALL = FIXED + list(PARAM)
GROUP = ["RX", "RY", "RZ", "RH", "PHASE", "CPHASE", "XX", "YY", "ZZ", "XY"]
SPECIAL = [0, 1, -2, 0.0, 0.5, 3.141592653589793, -1.5707963267948966, 1e-9, 12345.678, sympy.pi, -sympy.pi / 2,
           sympy.Rational(1, 3), sympy.Integer(0), sympy.Float(0.7), 2 * sympy.pi, sympy.sqrt(2)]


def table(S):
    """The gates the module itself declares must be the ones named above."""
    names = set()
    for k, v in vars(_builtin_gates).items():
        if k.startswith("_") or k in ("Callable", "Union", "GatePrototype", "GateRef", "make_parametric_gate_prototype",
                                      "builtin_gate_by_name"):
            continue
        if hasattr(v, "matrix") or callable(v):
            names.add(k)
    return names


def valid(S, g, env, name, u):
    n = g.num_qubits
    S.check(n == (2 if name in TWO else 1), f"{name}: number of qubits")
    M = g.matrix
    S.check(tuple(M.shape) == (2**n, 2**n), f"{name}: dimension")
    m = lib.tolist(S.ev(M, env))
    S.close_mat(lib.mul(m, lib.dag(m)), lib.eye(2**n), f"{name}: unitary ({u})")
    if g.is_hermitian:
        S.close_mat(m, lib.dag(m), f"{name}: flagged self-adjoint ({u})")
    d = g.dagger
    S.check(d.num_qubits == n, f"{name}: dagger qubits")
    S.close_mat(lib.tolist(S.ev(d.matrix, env)), lib.dag(m), f"{name}: dagger is the adjoint ({u})")
    return m


def build(name, params):
    g = getattr(C, name)
    return g(*params) if name in PARAM else g


@scenario()
def names(S):
    S.check(set(ALL) <= table(S), "all built-in gates are present")


@scenario()
def fixed_gates(S):
    name = S.choice("g", FIXED)
    valid(S, build(name, ()), {}, name, "fixed")


@scenario()
def numeric_parameters(S):
    name = S.choice("g", list(PARAM))
    ps = S.reals("a", PARAM[name], -40, 40)
    g = build(name, ps)
    S.check(len(g.params) == len(ps), f"{name}: number of parameters")
    S.close_all(zip(g.params, ps), f"{name}: parameters")
    valid(S, g, {}, name, "numeric angles")


@scenario()
def integer_parameters(S):
    """angles given as Python integers, of either sign and any size"""
    name = S.choice("g", list(PARAM))
    k = PARAM[name]
    which = S.choice("which", ["all"] + (["first", "last"] if k > 1 else []))
    ps = [S.int(f"n{i}", -200, 200) if which == "all" or i == (0 if which == "first" else k - 1) else S.real(f"a{i}", -40, 40)
          for i in range(k)]
    g = build(name, ps)
    S.check(len(g.params) == k, f"{name}: number of parameters")
    S.close_all(zip(g.params, ps), f"{name}: parameters")
    m = valid(S, g, {}, name, "integer angles")
    m2 = lib.tolist(S.ev(build(name, [p * S.num(1.0) for p in ps]).matrix))
    S.close_mat(m, m2, f"{name}: an integer angle means the same number as a float")
    syms = sympy.symbols("alpha beta gamma")[:k]
    m3 = lib.tolist(S.ev(build(name, syms).matrix, dict(zip(syms, ps))))
    S.close_mat(m, m3, f"{name}: matrix formula at an integer equals the formula in the symbol")


@scenario()
def large_angles(S):
    name = S.choice("g", list(PARAM))
    ps = S.reals("a", PARAM[name], -100000, 100000)
    g = build(name, ps)
    m = valid(S, g, {}, name, "large angles")
    syms = sympy.symbols("alpha beta gamma")[: PARAM[name]]
    m2 = lib.tolist(S.ev(build(name, syms).matrix, dict(zip(syms, ps))))
    S.close_mat(m, m2, f"{name}: matrix formula at a large number equals the formula in the symbol")


@scenario()
def symbolic_parameters(S):
    name = S.choice("g", list(PARAM))
    form = S.choice("form", ["symbol", "affine"])
    syms = sympy.symbols("alpha beta gamma")[: PARAM[name]]
    vals = S.reals("a", PARAM[name], -40, 40)
    args = syms if form == "symbol" else [2 * s + sympy.Rational(1, 3) for s in syms]
    g = build(name, args)
    m = valid(S, g, dict(zip(syms, vals)), name, "free symbols " + form)
    nums = vals if form == "symbol" else [2 * v + S.num(1) / 3 for v in vals]
    m2 = lib.tolist(S.ev(build(name, nums).matrix))
    S.close_mat(m, m2, f"{name}: matrix formula at a number equals the formula in the symbol")


@scenario()
def repeated_symbol(S):
    """several parameters built from one symbol"""
    name = S.choice("g", ["U3", "MS"])
    x = sympy.Symbol("x")
    v = S.real("v", -40, 40)
    args = [x, 2 * x, -x][: PARAM[name]]
    valid(S, build(name, args), {x: v}, name, "one symbol")


@scenario()
def special_values(S):
    name = S.choice("g", list(PARAM))
    if PARAM[name] == 1:
        args = [S.choice("v", SPECIAL)]
    elif S.thorough:
        args = [S.choice(f"v{i}", SPECIAL[:12]) for i in range(PARAM[name])]
    else:
        i = S.pick("v", len(SPECIAL))
        args = [SPECIAL[(i + 5 * j) % len(SPECIAL)] for j in range(PARAM[name])]
    valid(S, build(name, args), {}, name, "exact argument")


PI_STEPS = [k for k in range(-9, 14) if k]


@scenario()
def exact_multiples(S):
    """an angle handed over as an exact multiple of pi (or another exact number) is that real number"""
    name = S.choice("g", list(PARAM))
    i = S.choice("which", list(range(PARAM[name])))
    q = S.choice("q", [1, 2, 3, 4, 5] if S.thorough else [1, 2, 3])
    ks = PI_STEPS if S.thorough or PARAM[name] == 1 else PI_STEPS[::4] + [5]
    exact = S.choice("k", ks) * sympy.pi / q
    form = S.choice("form", ["pi", "pi+r"]) if S.thorough else "pi"
    if form == "pi+r":
        exact = exact + sympy.Rational(2, 7)
    args = [exact if j == i else S.real(f"a{j}", -40, 40) for j in range(PARAM[name])]
    nums = [float(exact) if j == i else args[j] for j in range(PARAM[name])]
    m = lib.tolist(S.ev(build(name, args).matrix))
    S.close_mat(m, lib.tolist(S.ev(build(name, nums).matrix)), f"{name}: an exact angle means the same number as a float")
    if name in GROUP:
        b = S.real("b", -40, 40)
        mb, mab = (lib.tolist(S.ev(build(name, [v]).matrix)) for v in (b, float(exact) + b))
        S.close_mat(lib.mul(mb, m), mab, f"{name}: a then b is a+b, with a exact")


@scenario()
def kinds_of_numbers(S):
    """the same value as a Python, numpy or sympy number"""
    name = S.choice("g", list(PARAM))
    k = PARAM[name]
    kind = S.choice("kind", [np.float64, np.int64, np.int32, np.uint8, sympy.Float, sympy.Integer, float, np.float32])
    i = S.choice("which", list(range(k)))
    vals = [7, -9, 2.5, -8.25, 200, 13.0, 0, 3] if S.thorough or k == 1 else [7, -8.25, 200]
    v = S.choice("v", vals)
    if kind in (np.int64, np.int32, sympy.Integer):
        v = int(v)
    if kind is np.uint8:
        v = abs(int(v))
    others = [S.real(f"a{j}", -40, 40) for j in range(k)]
    m = lib.tolist(S.ev(build(name, [kind(v) if j == i else others[j] for j in range(k)]).matrix))
    syms = sympy.symbols("alpha beta gamma")[:k]
    env = {s: (float(v) if j == i else others[j]) for j, s in enumerate(syms)}
    S.close_mat(m, lib.tolist(S.ev(build(name, syms).matrix, env)), f"{name}: {kind.__name__} angle")


@scenario()
def partly_special(S):
    """some parameters exact, the others arbitrary"""
    name = S.choice("g", ["U3", "MS"])
    k = PARAM[name]
    args = []
    for i in range(k):
        args.append(S.choice(f"v{i}", [None, 0, sympy.pi, 0.5]))
        if args[-1] is None:
            args[-1] = S.real(f"a{i}", -40, 40)
    valid(S, build(name, args), {}, name, "mixed arguments")


@scenario()
def group_law(S):
    name = S.choice("g", GROUP)
    if S.flag("int"):
        a, b = S.int("ia", -60, 60), S.choice("ib", [1, -3])
    else:
        a, b = S.real("a", -40, 40), S.real("b", -40, 40)
    ma, mb = (lib.tolist(S.ev(build(name, [v]).matrix)) for v in (a, b))
    mab = lib.tolist(S.ev(build(name, [a + b]).matrix))
    S.close_mat(lib.mul(mb, ma), mab, f"{name}: a then b is a+b")
    sa, sb = sympy.symbols("sa sb")
    m = lib.tolist(S.ev(build(name, [sa + sb]).matrix, {sa: a, sb: b}))
    S.close_mat(lib.mul(mb, ma), m, f"{name}: a then b is a+b (symbolic sum)")


@scenario()
def group_zero(S):
    name = S.choice("g", GROUP)
    z = S.choice("z", [0, 0.0, -0.0, sympy.Integer(0), sympy.Float(0)])
    m = lib.tolist(S.ev(build(name, [z]).matrix))
    S.close_mat(m, lib.eye(len(m)), f"{name}: angle 0 is the identity")
    a = S.real("a", -40, 40)
    ma, mb = (lib.tolist(S.ev(build(name, [v]).matrix)) for v in (a, -a))
    S.close_mat(lib.mul(ma, mb), lib.eye(len(m)), f"{name}: inverse angle")


@scenario()
def relations(S):
    def M(g):
        return lib.tolist(S.ev(g.matrix))

    P = lib.PAULI
    rel = S.choice("rel", ["paulis", "S", "T", "SX", "H", "CNOT", "CZ", "SWAP", "Delay", "ISWAP", "gen"])
    if rel == "paulis":
        for p in "IXYZ":
            S.close_mat(M(getattr(C, p)), P[p], f"{p} is the Pauli matrix")
    elif rel == "S":
        S.close_mat(lib.mul(M(C.S), M(C.S)), M(C.Z), "S*S=Z")
    elif rel == "T":
        S.close_mat(lib.mul(M(C.T), M(C.T)), M(C.S), "T*T=S")
    elif rel == "SX":
        S.close_mat(lib.mul(M(C.SX), M(C.SX)), M(C.X), "SX*SX=X")
    elif rel == "H":
        S.close_mat(lib.mul(lib.mul(M(C.H), M(C.Z)), M(C.H)), M(C.X), "H*Z*H=X")
    elif rel in ("CNOT", "CZ"):
        S.close_mat(M(getattr(C, rel)), lib.diag(lib.eye(2), P["X" if rel == "CNOT" else "Z"]), f"{rel} is controlled")
        S.close_mat(M((C.X if rel == "CNOT" else C.Z).controlled(1)), M(getattr(C, rel)), f"{rel} vs controlled(1)")
    elif rel == "SWAP":
        w = [[0] * 4 for _ in range(4)]
        for i in range(4):
            w[(i % 2) * 2 + i // 2][i] = 1
        S.close_mat(M(C.SWAP), w, "SWAP exchanges qubits")
    elif rel == "ISWAP":
        m = M(C.ISWAP)
        S.close_mat(m, M(C.XY(S.pi if not S.symbolic else sympy.pi)), "ISWAP = XY(pi)")
    elif rel == "Delay":
        S.close_mat(M(C.Delay(S.real("d", 0, 100))), lib.eye(2), "Delay is the identity")
        S.close_mat(M(C.Delay(sympy.Symbol("d"))), lib.eye(2), "Delay is the identity (symbol)")
    else:
        # rotation generators: U(a) = cos(a/2) - i sin(a/2) P
        a = S.real("a", -40, 40)
        c, s = S.cos(a / 2), S.sin(a / 2)
        for nm, p in (("RX", P["X"]), ("RY", P["Y"]), ("RZ", P["Z"]), ("XX", lib.kron(P["X"], P["X"])),
                      ("YY", lib.kron(P["Y"], P["Y"])), ("ZZ", lib.kron(P["Z"], P["Z"]))):
            m = M(build(nm, [a]))
            want = lib.sub(lib.scale(c, lib.eye(len(m))), lib.scale(1j * s, p))
            S.close_mat(m, want, f"{nm}: exp(-i a/2 P)")
        S.close_mat(M(C.PHASE(a)), [[1, 0], [0, S.cis(a)]], "PHASE")
        S.close_mat(M(C.CPHASE(a)), lib.diag(lib.eye(3), [[S.cis(a)]]), "CPHASE")
