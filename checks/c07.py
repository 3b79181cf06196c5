"""C07: gate modifiers (dagger, controlled, power, exp) mean what they say."""
import sympy
from sympy import Symbol

from orquestra.quantum import circuits as C
from orquestra.quantum.circuits import CustomGateDefinition, _gates

from symx import core, matfun
from symx.api import scenario

from . import lib

BOUNDS = ("every built-in gate at any angle |a|<=40 and custom 1-qubit gates (arbitrary complex entries, and unitary families); "
          "every chain of up to 3 modifiers (4 thorough for a smaller alphabet) from dagger, 1-3 controls, integer powers "
          "-3..4 (int and float), powers +-1/2, +-1/3, 1/4, exp; single modifiers with 4-6 controls, powers -6..11 and roots "
          "up to 1/10; chains on gates of at most 3 (4) qubits; free symbols under dagger/"
          "control chains; parameters replaced by arbitrary numbers or symbols at the end of the chain")
OUTSIDE = ("sympy's matrix power and exponential are contract stubs on symbolic matrices (R**q = M; functions of the matrix; "
           "exp and inverse commute with the adjoint, roots do unless -1 is an eigenvalue; angles where a parametrized gate "
           "under a fractional power and a dagger gets the eigenvalue -1 are left out): their own numerics, and how long "
           "sympy takes for them (exp of the exact T gate does not finish in minutes), are not checked; deeper chains")

setup_symbolic = matfun.register
KNOWN = "dagger-of-fractional-power"


def frac(p):
    return float(p) != int(p)


def encoded(S, M):
    return [[(lambda c: (c.re, c.im) if hasattr(c, "re") else (c.p, {}))(S.num(v)) for v in row] for row in M]


def minus_one(S, M):
    """-1 is an eigenvalue of M"""
    if not S.symbolic:
        import numpy as np

        ev = np.linalg.eigvals(np.array(M, dtype=complex))
        return bool(any(abs(e + 1) < 1e-4 for e in ev))
    return matfun.minus_one(encoded(S, M))


def fractional_inside(g):
    """gates on which a fractional power acts"""
    while hasattr(g, "wrapped_gate"):
        if isinstance(g, _gates.Power) and frac(g.exponent):
            yield g.wrapped_gate
        g = g.wrapped_gate


def get(S, g, env=None):
    if S.symbolic:
        return lib.tolist(S.ev(g.matrix, env))
    try:
        M = g.matrix
    except Exception as e:
        # sympy's own numerics failing on a matrix of floats is outside this check
        tb, last = e.__traceback__, None
        while tb is not None:
            last, tb = tb.tb_frame.f_code.co_filename, tb.tb_next
        if "sympy" in last or "mpmath" in last:
            raise core.Infeasible("sympy numerics")
        raise
    return lib.tolist(S.ev(M, env))


def is_unitary(S, M):
    if not S.symbolic:
        return lib.near(lib.mul(M, lib.dag(M)), lib.eye(len(M)))
    return matfun.unitary(encoded(S, M))


def mpow(M, n):
    out = lib.eye(len(M))
    for _ in range(n):
        out = lib.mul(out, M)
    return out


def expm(S, g):
    if S.symbolic:
        return lib.tolist(S.ev(g.matrix.exp()))
    import scipy.linalg as sl

    return sl.expm(S.arr(g.matrix)).tolist()


MODS = {
    "dagger": lambda g: g.dagger, "c1": lambda g: g.controlled(1), "c2": lambda g: g.controlled(2),
    "c3": lambda g: g.controlled(3), "c4": lambda g: g.controlled(4), "c5": lambda g: g.controlled(5),
    "c6": lambda g: g.controlled(6), "p5": lambda g: g.power(5), "p6": lambda g: g.power(6), "p7": lambda g: g.power(7),
    "p8": lambda g: g.power(8), "p11": lambda g: g.power(11), "p-4": lambda g: g.power(-4), "p-5": lambda g: g.power(-5),
    "p-6": lambda g: g.power(-6), "p4.0": lambda g: g.power(4.0), "p1/5": lambda g: g.power(0.2), "p1/6": lambda g: g.power(1 / 6),
    "p1/8": lambda g: g.power(0.125), "p1/10": lambda g: g.power(0.1), "p-1/4": lambda g: g.power(-0.25),
    "p-1/5": lambda g: g.power(-0.2),
    "p0": lambda g: g.power(0), "p1": lambda g: g.power(1), "p2": lambda g: g.power(2), "p3": lambda g: g.power(3),
    "p4": lambda g: g.power(4), "p2.0": lambda g: g.power(2.0), "p-1": lambda g: g.power(-1), "p-2": lambda g: g.power(-2),
    "p-3": lambda g: g.power(-3), "p-1.0": lambda g: g.power(-1.0),
    "p1/2": lambda g: g.power(0.5), "p1/3": lambda g: g.power(1 / 3), "p1/4": lambda g: g.power(0.25),
    "p-1/2": lambda g: g.power(-0.5), "p-1/3": lambda g: g.power(-1 / 3), "exp": lambda g: g.exp,
}
EXPONENT = {"p0": 0, "p1": 1, "p2": 2, "p3": 3, "p4": 4, "p2.0": 2, "p-1": -1, "p-2": -2, "p-3": -3, "p-1.0": -1,
            "p5": 5, "p6": 6, "p7": 7, "p8": 8, "p11": 11, "p-4": -4, "p-5": -5, "p-6": -6, "p4.0": 4}
ROOT = {"p1/2": 2, "p1/3": 3, "p1/4": 4, "p-1/2": -2, "p-1/3": -3, "p1/5": 5, "p1/6": 6, "p1/8": 8, "p1/10": 10,
        "p-1/4": -4, "p-1/5": -5}
CTRL = {"c1": 1, "c2": 2, "c3": 3, "c4": 4, "c5": 5, "c6": 6}
BASIC = ["dagger", "c1", "c2", "c3", "p0", "p1", "p2", "p3", "p4", "p2.0", "p-1", "p-2", "p-3", "p-1.0", "p1/2", "p1/3", "p1/4",
         "p-1/2", "p-1/3", "exp"]
FAR = [w for w in MODS if w not in BASIC]


def step(S, g, w, env=None, path=""):
    """Apply one modifier and check its meaning against the matrix of the gate it modifies."""
    M = get(S, g, env)
    label = f"{path}.{w}"
    h = MODS[w](g)
    k = CTRL.get(w, 0)
    S.check(h.num_qubits == g.num_qubits + k, f"{label}: number of qubits")
    S.check(len(h.params) == len(g.params), f"{label}: number of parameters")
    for p, q in zip(g.params, h.params):
        S.check(p == q if isinstance(p, sympy.Basic) else S.eq(S.num(p), S.num(q)), f"{label}: same parameters")
    H = get(S, h, env)
    S.check(len(H) == 2**h.num_qubits and len(H[0]) == 2**h.num_qubits, f"{label}: matrix dimension")
    if len(H) != 2**h.num_qubits:
        return h
    if w == "dagger":
        key = None
        for inner in fractional_inside(g):
            if minus_one(S, get(S, inner, env)):
                key = KNOWN
                if lib.symbolic_matrix(S, inner):
                    return h  # isolated angles; the finding is shown on the fixed gates
        S.close_mat(H, lib.dag(M), f"{label}: conjugate transpose", tol=1e-8, key=key)
    elif k:
        S.close_mat(H, lib.diag(lib.eye(2**h.num_qubits - len(M)), M), f"{label}: identity block then the gate", tol=1e-8)
    elif w in EXPONENT:
        n = EXPONENT[w]
        if n >= 0:
            S.close_mat(H, mpow(M, n), f"{label}: repeated product", tol=1e-8)
        elif is_unitary(S, M):
            S.close_mat(H, lib.dag(mpow(M, -n)), f"{label}: adjoint of the repeated product", tol=1e-7)
        else:
            S.close_mat(lib.mul(H, mpow(M, -n)), lib.eye(len(M)), f"{label}: inverse of the repeated product", tol=1e-7)
    elif w in ROOT:
        q = ROOT[w]
        if q > 0:
            S.close_mat(mpow(H, q), M, f"{label}: q-th power is the original", tol=1e-7)
        else:
            S.close_mat(mpow(H, -q), lib.dag(M), f"{label}: q-th power is the inverse of the unitary", tol=1e-7)
    else:
        S.close_mat(H, expm(S, g), f"{label}: matrix exponential", tol=1e-7)
    return h


def base(S, b, pre="a"):
    if b in lib.FIXED:
        return getattr(C, b)
    if b in lib.PARAM:
        return getattr(C, b)(*S.reals(pre, lib.PARAM[b], -40, 40))
    if b == "any":
        return CustomGateDefinition("any", S.matrix("m", 2), ())()
    t, u = Symbol("t"), Symbol("u")
    d = CustomGateDefinition("cust", sympy.Matrix([[sympy.cos(t), -sympy.sin(t) * sympy.exp(-sympy.I * u)],
                                                   [sympy.sin(t) * sympy.exp(sympy.I * u), sympy.cos(t)]]), (t, u))
    return d(*S.reals(pre, 2, -7, 7))


ONEQ = ["RX", "RY", "RZ", "RH", "PHASE", "U3", "GPi", "GPi2", "cust", "X", "S", "T", "H", "SX"]
TWOQ = ["CNOT", "SWAP", "ISWAP", "CPHASE", "XX", "YY", "ZZ", "XY", "MS"]
MAIN = ["dagger", "c1", "p2", "p3", "p-1", "p1/2", "p1/3", "exp"]


@scenario(weight=2)
def single(S):
    """every gate, every modifier"""
    b = S.choice("base", lib.FIXED + list(lib.PARAM) + ["cust"])
    w = S.choice("w", BASIC)
    g = base(S, b)
    if g.num_qubits == 2 and w in ("c2", "c3", "p1/3", "p1/4", "p-1/3", "p4", "p3", "p-3") and not S.thorough:
        return
    if w == "exp" and b == "T":
        return
    step(S, g, w, path=b)


@scenario(weight=2)
def far_modifiers(S):
    """many controls, large exponents, small roots"""
    b = S.choice("base", ["X", "T", "SX", "RX", "PHASE", "any", "ISWAP", "CPHASE"] if not S.thorough else
                 lib.FIXED + ["RX", "RY", "PHASE", "any", "CPHASE", "XX", "U3", "cust"])
    w = S.choice("w", FAR)
    if b == "any" and not (w.startswith("c") or w in ("p5", "p6", "p8", "p4.0")):
        return
    if b not in lib.FIXED and b != "any" and w in ("p11", "p-6", "p1/8", "p1/10") and not (S.thorough and w in ("p-6", "p1/8")):
        return
    g = base(S, b)
    if g.num_qubits == 2 and (w in ("c5", "c6") or b == "CPHASE" and w not in ("c4", "p5", "p-4")):
        return
    h = step(S, g, w, path=b)
    if w in ("c4", "p6") and b in ("T", "RX"):
        step(S, h, S.choice("then", ["dagger", "c1", "c2"]), path=f"{b}.{w}")


@scenario()
def arbitrary_matrix(S):
    """custom gate with an arbitrary (invertible) matrix"""
    w = S.choice("w", ["dagger", "c1", "c2", "p0", "p1", "p2", "p3", "p2.0", "p-1", "p-2" if S.thorough else "p-1.0"])
    g = base(S, "any")
    if w.startswith("p-"):
        a, b, c, d = g.matrix
        a, b, c, d = [S.ev(v) for v in (a, b, c, d)]
        D = a * d - b * c
        S.assume(D.real * D.real + D.imag * D.imag > 0.01)
    h = step(S, g, w, path="any")
    if w in ("dagger", "c1", "p2"):
        step(S, h, S.choice("w2", ["dagger", "c1", "p2"]), path="any." + w)


@scenario(weight=3)
def chains_two(S):
    b = S.choice("base", ONEQ if S.thorough else ["RX", "RZ", "GPi", "cust", "X", "S", "T"])
    ws = [S.choice(f"w{i}", MAIN if i else MAIN + ["p-1/2"]) for i in range(2)]
    if "exp" in ws and b == "T":
        return
    g = base(S, b)
    path = b
    for w in ws:
        g = step(S, g, w, path=path)
        path += "." + w


@scenario(weight=3)
def chains_three(S):
    b = S.choice("base", ["RX", "U3", "cust", "GPi", "S"] if S.thorough else ["RY", "GPi"])
    ws = [S.choice(f"w{i}", MAIN if S.thorough else ["dagger", "c1", "p2", "p-1", "p1/2", "exp"]) for i in range(3)]
    if sum(CTRL.get(w, 0) for w in ws) > 2 and not S.thorough:
        return
    g = base(S, b)
    path = b
    for w in ws:
        g = step(S, g, w, path=path)
        path += "." + w


@scenario()
def chains_two_qubit(S):
    b = S.choice("base", TWOQ if S.thorough else ["ISWAP", "XX", "MS", "CPHASE"])
    ws = [S.choice(f"w{i}", ["dagger", "c1", "p2", "p-1", "p1/2", "exp"] if S.thorough else ["dagger", "c1", "p2", "p-1"])
          for i in range(2)]
    if sum(CTRL.get(w, 0) for w in ws) > 1 and not S.thorough:
        return
    g = base(S, b)
    path = b
    for w in ws:
        g = step(S, g, w, path=path)
        path += "." + w


@scenario()
def chains_deep(S):
    """longer chains of dagger/control/integer power"""
    b = S.choice("base", ["RX", "PHASE", "any"] if S.thorough else ["PHASE"])
    ws = [S.choice(f"w{i}", ["dagger", "c1", "p2", "p-1"] if b != "any" else ["dagger", "c1", "p2"]) for i in range(4)]
    if sum(CTRL.get(w, 0) for w in ws) > (3 if S.thorough else 2):
        return
    g = base(S, b)
    path = b
    for w in ws:
        g = step(S, g, w, path=path)
        path += "." + w


@scenario()
def free_symbols(S):
    """gates with free symbols: dagger and control chains, for every value of the symbols"""
    x, y = Symbol("x"), Symbol("y")
    env = {x: S.real("vx", -7, 7), y: S.real("vy", -7, 7)}
    b = S.choice("base", list(lib.PARAM) + ["cust"])
    ps = [x, 2 * y - x, y][: lib.PARAM.get(b, 2)]
    if b == "cust":
        t, u = Symbol("t"), Symbol("x")
        g = CustomGateDefinition("cu", sympy.Matrix([[t, -u], [sympy.I * u, t * u]]), (t, u))(*ps)
    else:
        g = getattr(C, b)(*ps)
    path = b
    for i in range(S.choice("depth", [1, 2, 3])):
        w = S.choice(f"w{i}", ["dagger", "c1"] if i else ["dagger", "c1", "c2"])
        if g.num_qubits + CTRL.get(w, 0) > (4 if S.thorough else 3):
            return
        g = step(S, g, w, env, path)
        path += "." + w


@scenario()
def replaced_parameters(S):
    """replacing the parameters of a modified gate = modifying the gate built with them"""
    b = S.choice("base", ["RX", "U3", "MS", "GPi", "cust", "PHASE"])
    n = lib.PARAM.get(b, 2)
    depth = S.choice("depth", [1, 2, 3])
    alpha = ["dagger", "c1", "p2", "p1/2", "exp"] if depth < 3 or S.thorough else ["dagger", "c1", "p2", "exp"]
    ws = [S.choice(f"w{i}", alpha) for i in range(depth)]
    g = base(S, b, "old")
    if g.num_qubits + sum(CTRL.get(w, 0) for w in ws) > 3:
        return
    sym = not any(w in ("p2", "p1/2", "exp") for w in ws) and S.flag("symbolic")
    x = Symbol("x")
    new = tuple([x, 0.25, 2 * x][:n]) if sym else tuple(S.reals("new", n, -7, 7))
    env = {x: S.real("vx", -7, 7)} if sym else {}
    if b == "cust":
        h = g.matrix_factory.gate_definition(*new)
    else:
        h = getattr(C, b)(*new)
    for w in ws:
        g, h = MODS[w](g), MODS[w](h)
    r = g.replace_params(new)
    S.check(r.num_qubits == h.num_qubits, "number of qubits")
    S.check(len(r.params) == n, "number of parameters")
    for p, q in zip(r.params, new):
        S.check(p == q if isinstance(q, sympy.Basic) else S.eq(S.num(p), S.num(q)), "the new parameters")
    S.close_mat(get(S, r, env), get(S, h, env), "same matrix", tol=1e-7)
    if not S.symbolic:
        S.check(r == h, "same gate")


@scenario()
def control_counts(S):
    """k controls at once, in two steps, and after a dagger"""
    b = S.choice("base", ["RY", "any", "X", "T"])
    g = base(S, b)
    k, l = S.choice("k", [1, 2, 3]), S.choice("l", [1, 2, 3])
    M = get(S, g)
    for h in (g.controlled(k).controlled(l), g.controlled(k + l)):
        S.check(h.num_qubits == 1 + k + l, "number of qubits")
        S.close_mat(get(S, h), lib.diag(lib.eye(2 ** (1 + k + l) - 2), M), "controls accumulate")
    S.close_mat(get(S, g.dagger.controlled(k)), get(S, g.controlled(k).dagger), "dagger and control commute")
    S.raises("no control count below 1", (ValueError,), g.controlled, 0)
