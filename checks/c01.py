"""C01: a circuit acts as the ordered product of its gates on the named qubits."""
import itertools

import numpy as np
import sympy
from orquestra.quantum import circuits as C
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import Circuit, CustomGateDefinition, MultiPhaseOperation
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator

from symx.api import scenario

from . import lib

BOUNDS = (
    "embedding: every ordered tuple of k distinct qubits, k<=3 of n<=4 (quick) / n<=5, k<=4 (thorough), gate "
    "matrices with arbitrary complex entries |re|,|im|<=2, numeric and free-symbol paths; circuits: 1-3 operations "
    "with arbitrary 1- and 2-qubit matrices on every tuple of 3 qubits, registers up to 4; simulators: <=4 operations, "
    "arbitrary normalised initial state on 2 qubits, every native/non-native split, MultiPhase with arbitrary real "
    "phases; concatenation of circuits of widths 1..4; wide_registers: 1-4-qubit gates on n=5..7; consecutive_gates/long_circuits: up to ~12 operations, every interleaving of native runs and of symbolic with numeric operations up to 5 (6), repeated and mutually inverse neighbours included; widths given as any integral number; amplitudes down to 1e-12")
OUTSIDE = "larger registers/arity/length; floating-point rounding (arithmetic is exact over the reals)"


def gate(S, name, k, symbolic=False):
    """A custom k-qubit gate with arbitrary matrix."""
    d = 2**k
    if symbolic:
        # entries are free symbols bound only at evaluation
        syms = sympy.symbols(" ".join(f"{name}_{i}" for i in range(min(4, d * d))))
        vals = [S.cplx(f"{name}_{i}", 2) for i in range(len(syms))]
        M = sympy.Matrix(d, d, lambda i, j: syms[(i * d + j) % len(syms)] * (1 + (i * d + j) // len(syms)))
        g = CustomGateDefinition(name, M, tuple(syms))(*syms)
        return g, dict(zip(syms, vals))
    M = S.matrix(name, d)
    return CustomGateDefinition(name, M, ())(), {}


def own(S, g, env=None):
    return lib.tolist(S.ev(g.matrix, env))


def tuples(n, ks):
    return [t for k in ks for t in itertools.permutations(range(n), k)]


@scenario()
def embedding_numeric(S):
    n = S.choice("n", [1, 2, 3, 4, 5] if S.thorough else [1, 2, 3, 4])
    k = S.choice("k", [k for k in ((1, 2, 3, 4) if S.thorough else (1, 2, 3)) if k <= n and not (n == 5 and k == 4)])
    t = S.choice("t", tuples(n, [k]))
    g, _ = gate(S, "g", k)
    U = S.arr(g(*t).lifted_matrix(n))
    S.close_mat(U, lib.embed(own(S, g), t, n), f"lifted matrix of a gate on {t}")
    S.close_mat(S.arr(Circuit([g(*t)], n_qubits=n).to_unitary()), lib.embed(own(S, g), t, n), "to_unitary of one gate")


@scenario()
def embedding_symbolic(S):
    n = S.choice("n", [1, 2, 3, 4] if S.thorough else [1, 2, 3])
    k = S.choice("k", [k for k in ((1, 2, 3) if S.thorough else (1, 2)) if k <= n])
    t = S.choice("t", tuples(n, [k]))
    g, env = gate(S, "g", k, symbolic=True)
    M = g(*t).lifted_matrix(n)
    S.close_mat(S.ev(M, env), lib.embed(own(S, g, env), t, n), f"symbolic lifted matrix on {t}")


@scenario()
def apply_to_state(S):
    n = S.choice("n", [1, 2, 3, 4] if S.thorough else [1, 2, 3])
    k = S.choice("k", [k for k in (1, 2, 3) if k <= n])
    t = S.choice("t", tuples(n, [k]))
    sym = S.flag("sym") if n <= 2 else False
    g, env = gate(S, "g", k, symbolic=sym)
    psi = S.cplxs("a", 2**n, 1)
    out = g(*t).apply(np.array(psi, dtype=object) if sym else _vec(S, psi))
    out = S.ev(sympy.Matrix(out) if not isinstance(out, np.ndarray) else out, env)
    out = list(np.asarray(out, dtype=object).reshape(-1))
    S.check(len(out) == 2**n, "length of the new state")
    S.close_all(zip(out, lib.apply(lib.embed(own(S, g, env), t, n), psi)), f"apply on {t}")


def _vec(S, psi):
    if S.symbolic:
        from symx import arr

        return arr.sarray(list(psi))
    return np.array(psi, dtype=complex)


@scenario()
def product_order(S):
    n = 3
    shape = S.choice("shape", ["one-two", "two-one", "one-one-two"])
    ar = {"one-two": (1, 2), "two-one": (2, 1), "one-one-two": (1, 1, 2)}[shape]
    extra = S.choice("extra", [0, 1])
    ops, U = [], lib.eye(2 ** (n + extra))
    for i, k in enumerate(ar):
        t = S.choice(f"t{i}", tuples(n, [k]) if (S.thorough or i != 1 or len(ar) < 3) else [(2,), (0,)])
        g, _ = gate(S, f"g{i}", k)
        ops.append(g(*t))
        U = lib.mul(lib.embed(own(S, g), t, n + extra), U)
    c = Circuit(ops, n_qubits=n + extra)
    S.check(c.n_qubits == n + extra, "register width")
    S.close_mat(c.to_unitary(), U, "to_unitary is the ordered product")
    psi = [0] * 2 ** (n + extra)
    psi[S.choice("basis", [0, 5])] = 1
    st = _vec(S, psi)
    for op in c.operations:
        st = op.apply(st)
    S.close_all(zip(list(st), lib.apply(U, psi)), "applying the operations one by one")


@scenario()
def mixed_symbolic_product(S):
    """one operation with free symbols, one numeric"""
    n = 2
    first = S.flag("first")
    g, env = gate(S, "g", 1, symbolic=True)
    h, _ = gate(S, "h", S.choice("kh", [1, 2]))
    tg = S.choice("tg", [(0,), (1,)])
    th = S.choice("th", [(0,), (1,)] if h.num_qubits == 1 else [(0, 1), (1, 0)])
    ops = [g(*tg), h(*th)] if first else [h(*th), g(*tg)]
    ms = [lib.embed(own(S, o.gate, env), o.qubit_indices, n) for o in ops]
    U = Circuit(ops, n_qubits=n).to_unitary()
    S.close_mat(S.ev(U if isinstance(U, sympy.MatrixBase) else np.array(U), env), lib.mul(ms[1], ms[0]),
                "to_unitary of a partly symbolic circuit")


WIDE = {5: [(4, 0), (0, 2, 1, 3), (1, 3, 2, 4), (3, 0, 4, 1), (2, 4, 0), (1, 2, 3, 4)],
        6: [(5, 0), (5,), (1, 3, 2, 4), (0, 5, 2), (4, 2, 3), (2, 1, 5, 0), (0, 1, 2, 3)],
        7: [(6, 0), (0, 3), (6, 5, 4), (1, 4, 2)]}


def structured(S, name, k):
    """a k-qubit matrix with arbitrary entries on the diagonal, two shifted diagonals and nothing else"""
    d = 2**k
    if k <= 2:
        return S.matrix(name, d)
    v = [[0] * d for _ in range(d)]
    for i in range(d):
        v[i][i] = S.cplx(f"{name}d{i}", 2)
        v[i][(i + 1) % d] = S.real(f"{name}u{i}", -2, 2)
        v[(5 * i + 3) % d][i] = S.real(f"{name}l{i}", -2, 2)
    return sympy.Matrix(d, d, lambda i, j: S.number(v[i][j]) if not lib.is0(v[i][j]) else 0)


@scenario()
def wide_registers(S):
    """wider registers and 4-qubit gates: embedding, action on a state, width"""
    n = S.choice("n", [5, 6, 7])
    t = S.choice("t", WIDE[n])
    M = structured(S, "g", len(t))
    g = CustomGateDefinition("g", M, ())()
    c = Circuit([g(*t)], n_qubits=n)
    want = lib.embed(own(S, g), t, n)
    S.close_mat(S.arr(g(*t).lifted_matrix(n)), want, f"lifted matrix of a gate on {t} of {n}")
    psi = [0] * 2**n
    for i in (0, 1, 2**n - 2, 5, 2**(n - 1) + 3):
        psi[i] = S.real(f"a{i}", -1, 1)
    S.close_all(zip(list(g(*t).apply(_vec(S, psi))), lib.apply(want, psi)), f"apply on {t} of {n}")
    S.check(c.n_qubits == n, "register width")


NAMED = lib.FIXED + ["RX", "PHASE", "U3", "CPHASE", "XX", "XY", "GPi2"]


def named(S, i, names):
    k = S.choice(f"g{i}", names)
    g = getattr(C, k)
    if k in lib.PARAM:
        return g(*[S.choice(f"v{i}", [sympy.pi, 0.5]) if k != "RX" else S.real(f"th{i}", -7, 7)] * lib.PARAM[k])
    return g


@scenario(weight=2)
def consecutive_gates(S):
    """two or three neighbouring built-in gates, equal or not, on every choice of qubits"""
    n = S.choice("n", [2, 3])
    a = named(S, 0, NAMED if n == 2 else ["CNOT", "SWAP", "CZ", "H", "T"])
    b = S.choice("second", ["same", "dagger", "CNOT", "H", "CPHASE"] if n == 2 else ["same", "dagger", "CNOT", "CZ"])
    b = {"same": lambda: a, "dagger": lambda: a.dagger, "CPHASE": lambda: C.CPHASE(S.real("ph", -7, 7))}.get(b, lambda: getattr(C, b))()
    ta = S.choice("ta", tuples(n, [a.num_qubits]))
    tb = S.choice("tb", tuples(n, [b.num_qubits]))
    ops = [a(*ta), b(*tb)]
    if S.flag("third"):
        ops.append(a(*ta))
    U = lib.eye(2**n)
    for o in ops:
        U = lib.mul(lib.embed(own(S, o.gate), o.qubit_indices, n), U)
    c = Circuit(ops, n_qubits=n)
    S.close_mat(c.to_unitary(), U, "to_unitary of neighbouring gates")
    S.check(len(c.operations) == len(ops), "no operation lost")
    psi = [int(i == 2**n - 2) for i in range(2**n)]
    wf = SymbolicSimulator().get_wavefunction(c, _vec(S, psi))
    S.close_all(zip(list(wf.amplitudes), lib.apply(U, psi)), "neighbouring gates on a state")


@scenario()
def long_circuits(S):
    """5-8 operations in program order: unitary, one-by-one application, simulators with native blocks"""
    L = S.choice("len", [5, 6, 8] if S.thorough else [5, 7])
    n = 3
    pat = S.choice("pattern", ["one-qubit", "alternating", "spread"])
    th = S.real("th", -7, 7)
    c, s = S.cos(th / 2), S.sin(th / 2)
    ops, U, native = [], lib.eye(2**n), {}
    e = S.cis(th)
    simulate = S.flag("simulate")
    blocks = S.choice("blocks", ["pairs", "odd", "even"]) if simulate else "pairs"
    for i in range(L):
        q = {"one-qubit": 1, "alternating": i % 2, "spread": (2 * i) % 3}[pat]
        kind = (i * i + (pat == "spread")) % 4
        if kind == 0:
            g, M, t = C.RY(th), [[c, -1 * s], [s, c]], (q,)
        elif kind == 1:
            g, M, t = C.H, [[0.5**0.5, 0.5**0.5], [0.5**0.5, -(0.5**0.5)]], (q,)
        elif kind == 2 or pat == "one-qubit":
            g, M, t = C.PHASE(th), [[1, 0], [0, e]], (q,)
        else:
            g, M, t = C.CNOT, [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], (q, (q + 1 + i % 2) % 3)
        ops.append(g(*t))
        native[id(ops[-1])] = {"pairs": (i // 2) % 2 == 0, "odd": i % 2 == 1, "even": i % 2 == 0}[blocks]
        U = lib.mul(lib.embed(M, t, n), U)
    circ = Circuit(ops, n_qubits=n)
    b = S.choice("basis", [0, 6])
    psi = [int(i == b) for i in range(2**n)]
    want = [r[b] for r in U]
    if not simulate:
        S.close_mat(circ.to_unitary(), U, "to_unitary of a long circuit")
        return
    wf = AnySplit(native).get_wavefunction(circ, _vec(S, psi))
    S.close_all(zip(list(wf.amplitudes), want), "long circuit, blocks of native operations")
    wf = SymbolicSimulator().get_wavefunction(circ, _vec(S, psi))
    S.close_all(zip(list(wf.amplitudes), want), "long circuit, SymbolicSimulator")


@scenario()
def long_mixed_circuits(S):
    """4-6 operations, some with free symbols and some without, in any interleaving"""
    L = S.choice("len", [4, 5, 6] if S.thorough else [4, 5])
    n = 2
    mask = S.choice("mask", [m for m in range(1, 2**L - 1) if S.thorough or L < 5 or m % 2])
    x, y = sympy.symbols("x y")
    env = {x: S.real("vx", -7, 7), y: S.real("vy", -7, 7)}
    fam = S.choice("fam", [0, 1])
    ops, U = [], lib.eye(2**n)
    for i in range(L):
        if (mask >> i) & 1:
            g = [C.RX, C.RY, C.PHASE][(i + fam) % 3]((x, y, x)[i % 3])
            t = ((i + fam) % 2,)
        else:
            g = [C.CNOT, C.H, C.S, C.T][(i + fam) % 4]
            t = (i % 2, (i + 1) % 2) if g.num_qubits == 2 else ((i // 2) % 2,)
        ops.append(g(*t))
        U = lib.mul(lib.embed(own(S, g, env), t, n), U)
    m = Circuit(ops, n_qubits=n).to_unitary()
    S.close_mat(S.ev(m if isinstance(m, sympy.MatrixBase) else np.array(m), env), U, "to_unitary of a long, partly symbolic circuit")


@scenario()
def empty_circuit(S):
    n = S.choice("n", [1, 2, 3])
    c = Circuit([], n_qubits=n)
    S.close_mat(c.to_unitary(), lib.eye(2**n), "empty circuit is the identity")
    wf = SymbolicSimulator().get_wavefunction(c)
    S.close_all(zip(list(wf.amplitudes), [1] + [0] * (2**n - 1)), "empty circuit keeps |0..0>")


def builtin_ops(S, i, n, th):
    """an operation with known textbook matrix (written independently)"""
    k = S.choice(f"k{i}", ["rx", "u3", "cnot", "h", "xx"] if S.thorough else ["rx", "cnot", "u3"])
    if k == "rx":
        c, s = S.cos(th / 2), S.sin(th / 2)
        return C.RX(th), [[c, -1j * s], [-1j * s, c]], 1
    if k == "u3":
        c, s = S.cos(th / 2), S.sin(th / 2)
        e = S.cis(th)
        return C.U3(th, 0.0, th), [[c, -1 * e * s], [s, e * c]], 1
    if k == "h":
        r = 2**-0.5
        return C.H, [[r, r], [r, -r]], 1
    if k == "cnot":
        return C.CNOT, [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], 2
    c, s = S.cos(th / 2), S.sin(th / 2)
    return C.XX(th), [[c, 0, 0, -1j * s], [0, c, -1j * s, 0], [0, -1j * s, c, 0], [-1j * s, 0, 0, c]], 2


class AnySplit(BaseWavefunctionSimulator):
    """Declares an arbitrary subset of the operations native."""

    def __init__(self, native):
        super().__init__()
        self.native = native
        self.seen = []

    def is_natively_supported(self, op):
        return self.native[id(op)]

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.seen.append(circuit)
        st = initial_state
        for op in circuit.operations:
            st = op.apply(st)
        return st


@scenario()
def simulators(S):
    n = 2
    L = S.choice("len", [1, 2, 3, 4] if S.thorough else [1, 2, 3])
    init = S.choice("init", ["zero", "any"] if L <= 2 or S.thorough else ["any"])
    ops, native, U = [], {}, lib.eye(2**n)
    for i in range(L):
        th = S.real(f"th{i}", -7, 7)
        kind = S.choice(f"op{i}", ["gate", "phase"])
        if kind == "phase":
            ph = [S.real(f"ph{i}_{j}", -7, 7) for j in range(2**n)]
            op = MultiPhaseOperation(tuple(ph))
            M = lib.zeros(2**n)
            for j in range(2**n):
                M[j][j] = S.cis(ph[j])
            U = lib.mul(M, U)
        else:
            g, G, k = (C.RX(th), [[S.cos(th / 2), -1j * S.sin(th / 2)], [-1j * S.sin(th / 2), S.cos(th / 2)]], 1) \
                if (i > 1 and not S.thorough) else builtin_ops(S, i, n, th)
            t = S.choice(f"t{i}", tuples(n, [k]))
            op = g(*t)
            U = lib.mul(lib.embed(G, t, n), U)
        nat = S.flag(f"nat{i}") if kind == "gate" else False
        ops.append(op)
        native[id(op)] = nat
    c = Circuit(ops, n_qubits=n)
    if init == "any":
        psi = S.unit("a", 2**n)
        arg = _vec(S, psi)
    else:
        psi = [1] + [0] * (2**n - 1)
        arg = None
    want = lib.apply(U, psi)
    sim = AnySplit(native)
    wf = sim.get_wavefunction(c, arg)
    S.close_all(zip(list(wf.amplitudes), want), "BaseWavefunctionSimulator subclass final state")
    if arg is not None:
        S.close_all(zip(list(arg), psi), "initial state untouched")
    wf2 = SymbolicSimulator().get_wavefunction(c, arg)
    S.close_all(zip(list(wf2.amplitudes), want), "SymbolicSimulator final state")


@scenario()
def symbolic_simulation(S):
    """simulating a circuit that still has free symbols"""
    a, b = sympy.symbols("a b")
    va, vb = S.real("va", -7, 7), S.real("vb", -7, 7)
    order = S.flag("order")
    t = S.choice("t", [(0,), (1,)])
    ct = S.choice("ct", [(0, 1), (1, 0)])
    ops = [C.RX(a)(*t), C.CNOT(*ct), C.RZ(b)(1)]
    if order:
        ops = ops[::-1]
    env = {a: va, b: vb}
    U = lib.eye(4)
    for o in ops:
        U = lib.mul(lib.embed(own(S, o.gate, env), o.qubit_indices, 2), U)
    wf = SymbolicSimulator().get_wavefunction(Circuit(ops, n_qubits=2))
    S.close_all(zip(list(S.ev(np.array(wf.amplitudes, dtype=object), env)), lib.apply(U, [1, 0, 0, 0])),
                "symbolic final state")


@scenario()
def multiphase(S):
    n = S.choice("n", [1, 2, 3])
    ph = [S.real(f"p{j}", -7, 7) for j in range(2**n)]
    psi = S.cplxs("a", 2**n, 1)
    out = MultiPhaseOperation(tuple(ph)).apply(_vec(S, psi))
    S.close_all(zip(list(out), [S.cis(p) * a for p, a in zip(ph, psi)]), "MultiPhase multiplies by exp(i theta_k)")


@scenario()
def concatenation(S):
    wa, wb = S.choice("wa", [1, 2, 3]), S.choice("wb", [1, 2, 3])
    n = max(wa, wb)
    ga, _ = gate(S, "ga", 1)
    gb, _ = gate(S, "gb", S.choice("kb", [1, 2] if wb > 1 else [1]))
    ta = S.choice("ta", tuples(wa, [1]))
    tb = S.choice("tb", tuples(wb, [gb.num_qubits]))
    a, b = Circuit([ga(*ta)], n_qubits=wa), Circuit([gb(*tb)], n_qubits=wb)
    c = a + b
    want = lib.mul(lib.embed(own(S, gb), tb, n), lib.embed(own(S, ga), ta, n))
    S.check(c.n_qubits == n, "width of the concatenation")
    S.close_mat(c.to_unitary(), want, "concatenation composes the actions")
    d = a + gb(*tb)
    S.check(d.n_qubits == max(wa, max(tb) + 1), "width after appending an operation")
    nd = max(wa, max(tb) + 1)
    S.close_mat(d.to_unitary(), lib.mul(lib.embed(own(S, gb), tb, nd), lib.embed(own(S, ga), ta, nd)),
                "appending one operation")
    S.check(a.n_qubits == wa and b.n_qubits == wb and len(a.operations) == 1 and len(b.operations) == 1,
            "operands unchanged")


WHOLE = {"int": int, "float": float, "int64": np.int64, "uint8": np.uint8, "int8": np.int8, "integer": sympy.Integer}


@scenario()
def kinds_of_whole_numbers(S):
    """register widths and qubit indices given as other whole numbers than int"""
    n = S.choice("n", [2, 3, 4])
    width = WHOLE[S.choice("width", list(WHOLE))](n)
    q = WHOLE[S.choice("index", [k for k in WHOLE if k not in ("float", "integer")])]
    t = S.choice("t", [(1, 0), (0, n - 1), (n - 1, 0)])
    g1, _ = gate(S, "g1", 1)
    g2, _ = gate(S, "g2", 2)
    c = Circuit([g2(*map(q, t)), g1(q(1))], n_qubits=width)
    S.check(c.n_qubits == n, "register width")
    U = lib.mul(lib.embed(own(S, g1), (1,), n), lib.embed(own(S, g2), t, n))
    S.close_mat(S.arr(c.to_unitary()), U, "to_unitary")
    st = _vec(S, [1] + [0] * (2**n - 1))
    for op in c.operations:
        st = op.apply(st)
    S.close_all(zip(list(st), lib.apply(U, [1] + [0] * (2**n - 1))), "applying the operations one by one")
    th = S.real("th", -7, 7)
    sim = Circuit([C.X(q(1)), C.RX(th)(q(n - 1)), C.CNOT(*map(q, t))], n_qubits=width)
    V = lib.embed([[0, 1], [1, 0]], (1,), n)
    V = lib.mul(lib.embed([[S.cos(th / 2), -1j * S.sin(th / 2)], [-1j * S.sin(th / 2), S.cos(th / 2)]], (n - 1,), n), V)
    V = lib.mul(lib.embed([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], t, n), V)
    S.close_all(zip(list(SymbolicSimulator().get_wavefunction(sim).amplitudes), lib.apply(V, [1] + [0] * (2**n - 1))), "simulator")
    d = c + Circuit([g1(q(n))]) if S.flag("append") else c + g1(q(n))
    S.check(d.n_qubits == n + 1, "width after appending")
    S.check((Circuit(c.operations) + c).n_qubits == n, "width of a sum")


@scenario()
def small_amplitudes(S):
    """initial states with amplitudes of very different sizes: every part of each one counts"""
    e = S.choice("e", [1e-4, 1e-6, 1e-9, 1e-12])
    th = S.real("th", -7, 7)
    state = S.choice("state", ["real", "imaginary", "both"])
    x = {"real": e, "imaginary": 1j * e, "both": complex(e, -2 * e)}[state]
    big = (1 - abs(x) ** 2) ** 0.5
    psi = S.choice("order", [[big, x, 0, 0], [0, x, 0, -big], [x, 0, 1j * big, 0]])
    g = S.choice("gate", ["RZ", "X", "I", "CNOT", "phase"])
    ph = [0.5, th, -1.0, 2.0]
    if g == "phase":
        op, want = MultiPhaseOperation(tuple(ph)), [S.cis(p) * a for p, a in zip(ph, psi)]
    else:
        gate = C.RZ(th) if g == "RZ" else getattr(C, g)
        t = S.choice("t", [(0,), (1,)]) if g != "CNOT" else (1, 0)
        op, want = gate(*t), lib.apply(lib.embed(own(S, gate, {}), t, 2), psi)
    c = Circuit([op], n_qubits=2)
    arg = np.array(psi, dtype=complex)
    for name, sim in (("simulator", SymbolicSimulator()), ("native simulator", AnySplit({id(op): g != "phase"}))):
        got = list(sim.get_wavefunction(c, arg).amplitudes)
        S.check(len(got) == 4, f"{name}: number of amplitudes")
        for a, b in zip(got, want):
            d = S.num(a) - S.num(b)
            S.check(S.all(abs(d.real) <= 1e-3 * e, abs(d.imag) <= 1e-3 * e), f"{name}: small parts of the amplitudes",
                    margin=S.any(abs(d.real) > 1e-2 * e, abs(d.imag) > 1e-2 * e))
    S.check(list(arg) == psi, "initial state untouched")
