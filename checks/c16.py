"""C16: time-evolution circuits implement exp(-i t H) term by term, and its derivative."""
import itertools

import sympy
from orquestra.quantum.evolution import time_evolution, time_evolution_derivatives, time_evolution_for_term
from orquestra.quantum.operators import PauliSum, PauliTerm

from symx import sparse
from symx.api import Caught, scenario

from . import lib

setup_symbolic = sparse.register

BOUNDS = ("every Pauli string on 1-3 contiguous qubits and a family on non-contiguous ones, arbitrary real coefficient |c|<=4 and time "
          "|t|<=8 (also as a symbol); complex coefficients with arbitrary imaginary part; sums of 0-3 terms on 1-2 (thorough 3) qubits "
          "with 1-3 (thorough 4) steps; derivatives of sums of 1-2 (thorough 3) terms on 1-2 qubits with 1-3 (thorough 4) steps, "
          "compared as superoperators, hence for every observable and initial state; strings of weight 4-5 (6) on up to 6 qubits on selected basis "
          "states, qubits up to 100, sums of 4-5 terms with repeated strings, derivatives of up to 8 (10) steps of one-qubit sums and of 5-term "
          "sums at given times; times of every number type")
OUTSIDE = "more qubits, terms and steps than these; imaginary parts within a factor two of the 1e-9 threshold; rounding"


def exponential(S, ops, n, x):
    """exp(-i x P)"""
    c, s = S.cos(x), S.sin(x)
    return lib.add(lib.scale(c, lib.eye(2**n)), lib.scale(-1j * s, lib.pauli_matrix(ops, n)))


def string(s):
    return {q: p for q, p in enumerate(s) if p != "I"}


def width(ops):
    return max(ops, default=-1) + 1


APART = [{0: "X", 2: "Z"}, {1: "Y", 3: "X"}, {3: "Z", 0: "Y"}, {2: "X"}, {3: "X", 1: "Y", 0: "Z"}, {2: "Y", 0: "X", 3: "Y"}]


@scenario(weight=2)
def terms(S):
    n = S.choice("n", [1, 2, 3, 4])
    ops = S.choice("s", APART) if n == 4 else string(S.choice("s", list(itertools.product("IXYZ", repeat=n))))
    w = max(width(ops), 1)
    t, c = S.real("t", -8, 8), S.real("c")
    circ = time_evolution_for_term(PauliTerm(ops, c), t)
    if not ops:
        S.check(len(circ.operations) == 0, "a constant term gives an empty circuit")
        return
    S.check(circ.n_qubits == w, "width of the circuit")
    S.close_mat(lib.circuit_matrix(S, circ.operations, w), exponential(S, ops, w, t * c), "exp(-i t c P)")


@scenario()
def symbolic_time(S):
    """the time is a symbol bound later"""
    ops = S.choice("s", [{0: "X"}, {1: "Y"}, {0: "Z", 1: "Y"}, {0: "Y", 2: "X"}])
    w = width(ops)
    t, c = S.real("t", -8, 8), S.real("c")
    T = S.symbol("T")
    expr, value = S.choice("expr", [(T, t), (2 * T, 2 * t), (T + 1, t + 1), (T / 3, t / 3)])
    circ = time_evolution_for_term(PauliTerm(ops, c), expr)
    S.close_mat(lib.circuit_matrix(S, circ.operations, w, {T: t}), exponential(S, ops, w, value * c), "exp(-i t c P) at a symbolic time")
    steps = S.choice("steps", [1, 2])
    circ = time_evolution(PauliSum([PauliTerm(ops, c)]), expr, n_steps=steps)
    S.close_mat(lib.circuit_matrix(S, circ.operations, w, {T: t}), exponential(S, ops, w, value * c), "commuting steps at a symbolic time")


@scenario()
def imaginary(S):
    """imaginary parts are never silently dropped"""
    ops = S.choice("s", [{0: "X"}, {1: "Y"}, {0: "Z", 2: "Z"}, {}])
    re, im = S.real("re"), S.real("im")
    t = S.real("t", -8, 8)
    S.assume(S.any(abs(im) > 2e-9, abs(im) < 5e-10))
    term = PauliTerm(ops, S._mkc(re, im))
    r = S.catch(time_evolution_for_term, term, t)
    if S.truth(abs(im) > 1e-9):
        S.check(isinstance(r, Caught), "term with an imaginary coefficient rejected")
        S.raises("sum with such a term rejected", (Exception,), time_evolution, PauliSum([PauliTerm("Z0"), term]), t, n_steps=S.choice("steps", [1, 2]))
        return
    if isinstance(r, Caught):
        S.fail(f"negligible imaginary part rejected: {r!r}")
    elif ops:
        w = width(ops)
        S.close_mat(lib.circuit_matrix(S, r.operations, w), exponential(S, ops, w, t * re), "exp(-i t c P)")


SUMS = {
    1: [[], [{0: "X"}], [{0: "X"}, {0: "Z"}], [{0: "Z"}, {}, {0: "Y"}], [{0: "Y"}, {0: "X"}, {0: "Y"}]],
    2: [[{0: "X", 1: "X"}, {1: "Z"}], [{1: "Z"}, {0: "X", 1: "X"}], [{0: "Z"}, {0: "Y", 1: "X"}, {1: "Y"}], [{}, {1: "X"}, {1: "Z", 0: "Z"}]],
    3: [[{0: "X", 2: "Y"}, {1: "Z", 2: "Z"}], [{0: "Z", 1: "X", 2: "Y"}, {0: "X"}]],
}


def hamiltonian(S, n, sums, tag="c"):
    terms = S.choice("terms", sums[n])
    cs = [S.real(f"{tag}{i}") for i in range(len(terms))]
    return terms, cs, PauliSum([PauliTerm(o, c) for o, c in zip(terms, cs)])


def steps_matrix(S, terms, cs, n, t, steps):
    U = lib.eye(2**n)
    for _ in range(steps):
        for o, c in zip(terms, cs):
            if o:
                U = lib.mul(exponential(S, o, n, t * c / steps), U)
    return U


@scenario(weight=2)
def trotter(S):
    n = S.choice("n", [1, 2, 3] if S.thorough else [1, 2])
    terms, cs, h = hamiltonian(S, n, SUMS)
    steps = S.choice("steps", [1, 2, 3, 4] if S.thorough and n < 3 else [1, 2, 3] if n == 1 else [1, 2])
    t = S.real("t", -8, 8)
    default = steps == 1 and S.flag("default")
    circ = time_evolution(h, t) if default else time_evolution(h, t, method="Trotter", n_steps=steps)
    S.check(all(q < n for op in circ.operations for q in op.qubit_indices), "only the Hamiltonian's qubits")
    S.close_mat(lib.circuit_matrix(S, circ.operations, n), steps_matrix(S, terms, cs, n, t, steps), "product of the steps in the listed order")
    if len(terms) == 1:
        circ = time_evolution(PauliTerm(terms[0], cs[0]), t, n_steps=steps)
        S.close_mat(lib.circuit_matrix(S, circ.operations, n), steps_matrix(S, terms, cs, n, t, steps), "single term given as a term")


@scenario()
def many_steps(S):
    """step counts beyond the other scenarios, against the library's own per-term circuits for t/steps"""
    steps = S.choice("steps", [1, 2, 4, 5, 7] + ([10] if S.thorough else []))
    t = S.real("t", -8, 8)
    terms = [PauliTerm({0: "X", 1: "Y"}, 0.5), PauliTerm({1: "Z"}, 0.25)]
    got = time_evolution(PauliSum(terms), t, n_steps=steps)
    one = lib.eye(4)
    for x in terms:
        one = lib.mul(lib.circuit_matrix(S, time_evolution_for_term(x, t / steps).operations, 2), one)
    want = lib.eye(4)
    for _ in range(steps):
        want = lib.mul(one, want)
    S.close_mat(lib.circuit_matrix(S, got.operations, 2), want, "product of the steps")


WIDE = [{0: "X", 1: "Y", 2: "Z", 3: "X"}, {3: "Y", 1: "X", 2: "Z", 0: "Y"}, {0: "Z", 1: "Z", 2: "Z", 3: "Z"}, {4: "X", 0: "Y", 2: "Z", 1: "Z"},
        {0: "Z", 1: "X", 2: "Y", 3: "Z", 4: "Y"}, {4: "Z", 3: "Z", 1: "X", 0: "X"}]
WIDER = [{5: "Y", 0: "X", 1: "Z", 4: "X", 2: "Y", 3: "Z"}, {0: "Y", 5: "Y", 3: "Y", 1: "Y"}]


@scenario()
def wide_terms(S):
    """strings of weight four and more"""
    ops = S.choice("s", WIDE + (WIDER if S.thorough else []))
    w = width(ops)
    t, c = S.real("t", -8, 8), S.real("c")
    circ = time_evolution_for_term(PauliTerm(ops, c), t)
    S.check(circ.n_qubits == w, "width of the circuit")
    # column by column
    for j in sorted({0, 1, 2**w - 1, 2**(w - 1), 5, 10, 3 * 2**(w - 3)} if not S.thorough else range(2**w)):
        e = [1 if i == j else 0 for i in range(2**w)]
        for op in circ.operations:
            e = lib.apply(lib.embed(S.ev(op.gate.matrix, {}), op.qubit_indices, w), e)
        want = lib.apply(exponential(S, ops, w, t * c), [1 if i == j else 0 for i in range(2**w)])
        S.close_all(list(zip(e, want)), "exp(-i t c P)")


@scenario()
def two_digit_qubits(S):
    """terms on qubits 8 to 12: relabelled, the circuit is the one on low indices"""
    ops = S.choice("s", [{9: "X", 10: "Y"}, {10: "Z", 9: "X"}, {8: "Y", 12: "X", 11: "Z"}, {2: "Z", 10: "X"}, {10: "Y", 2: "Y", 1: "X"},
                         {8: "X", 9: "Z", 10: "Y", 11: "X"}, {10: "X", 12: "Z", 2: "Z", 9: "Y"}, {99: "X", 100: "Y", 7: "Z", 20: "Z"}])
    t, c = S.real("t", -8, 8), S.real("c")
    circ = time_evolution_for_term(PauliTerm(ops, c), t)
    S.check(circ.n_qubits == max(ops) + 1 and {q for op in circ.operations for q in op.qubit_indices} <= set(ops), "only the qubits of the term")
    small = {q: i for i, q in enumerate(sorted(ops))}
    w = len(ops)
    U = lib.eye(2**w)
    for op in circ.operations:
        U = lib.mul(lib.embed(S.ev(op.gate.matrix, {}), [small[q] for q in op.qubit_indices], w), U)
    S.close_mat(U, exponential(S, {small[q]: p for q, p in ops.items()}, w, t * c), "exp(-i t c P)")


LONG = [[{0: "X"}, {0: "Z"}, {0: "X"}, {0: "Y"}], [{0: "Z"}, {0: "Y"}, {}, {0: "Z"}, {0: "Y"}],
        [{0: "X", 1: "Z"}, {1: "Y"}, {0: "X", 1: "Z"}, {0: "Z"}], [{1: "X"}, {0: "X"}, {1: "Z", 0: "Y"}, {0: "X"}, {1: "X"}]]


@scenario()
def long_sums(S):
    """four and more terms, the same strings repeatedly"""
    terms = S.choice("terms", LONG)
    n = max(width(o) for o in terms)
    cs = [S.real(f"c{i}", 0.1, 4) * (-1 if i % 2 else 1) for i in range(len(terms))]
    t = S.real("t", -8, 8)
    steps = S.choice("steps", [1, 2] if n == 1 else [1])
    circ = time_evolution(PauliSum([PauliTerm(o, c) for o, c in zip(terms, cs)]), t, n_steps=steps)
    S.close_mat(lib.circuit_matrix(S, circ.operations, n), steps_matrix(S, terms, cs, n, t, steps), "product of the steps in the listed order")


@scenario()
def kinds_of_time(S):
    """times that are Python or numpy integers and floats, fractions and sympy numbers"""
    import numpy as np

    v = S.choice("t", [1, 3, -2])
    t = S.choice("kind", [int, float, np.int64, sympy.Integer, np.int32])(v)
    steps = S.choice("steps", [1, 2, 4, 5, 7])
    ops = [{0: "X"}, {1: "Y"}, {0: "Z", 1: "Y"}][S.choice("s", [0, 1, 2])]
    c = S.real("c")
    got = time_evolution(PauliSum([PauliTerm(ops, c)]), t, n_steps=steps)
    S.check(len(got.operations) == steps * len(time_evolution_for_term(PauliTerm(ops, c), 0.5).operations), "one circuit per step")
    n = width(ops)
    want = lib.eye(2**n)
    for _ in range(steps):
        want = lib.mul(lib.circuit_matrix(S, time_evolution_for_term(PauliTerm(ops, c), v / steps).operations, n), want)
    S.close_mat(lib.circuit_matrix(S, got.operations, n), want, "every step evolves for time / n_steps")
    S.close_mat(lib.circuit_matrix(S, time_evolution_for_term(PauliTerm(ops, c), t).operations, n), exponential(S, ops, n, v * c), "exp(-i t c P)")
    circuits, factors = time_evolution_derivatives(PauliSum([PauliTerm(ops, 0.5), PauliTerm("Z0", 2)]), t, n_steps=steps)
    other, others = time_evolution_derivatives(PauliSum([PauliTerm(ops, 0.5), PauliTerm("Z0", 2)]), float(v), n_steps=steps)
    S.check(len(circuits) == len(other) == 4 * steps and all(abs(a - b) < 1e-12 for a, b in zip(factors, others)), "derivatives do not depend on the kind of number")
    for a, b in zip(circuits, other):
        S.check(len(a.operations) == len(b.operations), "derivatives do not depend on the kind of number")
        for x, y in zip(a.operations, b.operations):
            S.check(x.gate.name == y.gate.name and x.qubit_indices == y.qubit_indices, "derivatives do not depend on the kind of number")
            for u, w in zip(x.gate.params, y.gate.params):
                S.check(abs(float(u) - float(w)) < 1e-4, "derivatives do not depend on the kind of number")


@scenario()
def methods(S):
    h = PauliSum([PauliTerm("Z0")])
    S.raises("unknown method", (ValueError,), time_evolution, h, S.real("t"), method="Magnus")
    S.raises("unknown method", (ValueError,), time_evolution_derivatives, h, S.real("t"), method="Magnus")


DSUMS = {
    1: [[{0: "X"}], [{0: "Z"}, {0: "Y"}], [{0: "X"}, {}]],
    2: [[{0: "X", 1: "X"}], [{0: "Y", 1: "Z"}, {1: "X"}], [{1: "Z"}, {0: "Z"}]],
}


def derivative_of_steps(S, terms, cs, n, t, steps):
    """(U, dU/dt)"""
    U, D = lib.eye(2**n), lib.zeros(2**n)
    for _ in range(steps):
        for o, c in zip(terms, cs):
            if o:
                E = exponential(S, o, n, t * c / steps)
                dE = lib.scale(c / steps, lib.mul(lib.scale(-1j, lib.pauli_matrix(o, n)), E))
                U, D = lib.mul(E, U), lib.add(lib.mul(dE, U), lib.mul(E, D))
    return U, D


def check_derivative(S, terms, cs, h, n, t, steps):
    r = S.catch(time_evolution_derivatives, h, t, n_steps=steps)
    if isinstance(r, Caught):
        S.fail(f"derivative fails: {r!r}")
        return
    circuits, factors = r
    S.check(len(circuits) == len(factors), "one factor per circuit")
    U, D = derivative_of_steps(S, terms, cs, n, t, steps)
    Us = [lib.circuit_matrix(S, c.operations, n) for c in circuits]
    N = 2**n
    pairs = []
    for a, b, i, j in itertools.product(range(N), repeat=4):
        if (a, i) > (b, j):
            continue  # adjoint of an entry already there
        got = S.num(0)
        for f, V in zip(factors, Us):
            if lib.is0(V[a][i]) or lib.is0(V[b][j]):
                continue
            got = got + f * (S.num(V[a][i]) * lib.conj(S.num(V[b][j])))
        want = S.num(D[a][i]) * lib.conj(S.num(U[b][j])) + S.num(U[a][i]) * lib.conj(S.num(D[b][j]))
        pairs.append((got, want))
    S.close_all(pairs, "weighted circuits give the derivative for every observable and state", tol=1e-6)


@scenario(weight=3)
def derivatives(S):
    n = S.choice("n", [1, 2])
    terms = S.choice("terms", DSUMS[n])
    steps = S.choice("steps", ([1, 2, 3, 4] if n == 1 else [1, 2]) if S.thorough else [1, 2, 3] if n == 1 else [1])
    cs = [S.real(f"c{i}") for i in range(len(terms))]
    t = S.real("t", -8, 8)
    for c in cs:
        S.assume(S.any(abs(c) > 1e-3, S.eq(c, 0)))
    check_derivative(S, terms, cs, PauliSum([PauliTerm(o, c) for o, c in zip(terms, cs)]), n, t, steps)


@scenario()
def derivatives_fixed_coefficients(S):
    """arbitrary time, a few coefficients, more terms and steps"""
    n = S.choice("n", [1, 2])
    terms = S.choice("terms", [[{0: "X"}, {0: "Z"}, {0: "Y"}]] if n == 1 else [[{0: "X", 1: "Y"}, {1: "Z"}], [{0: "Z"}, {0: "X", 1: "X"}, {1: "Y"}]])
    cs = S.choice("cs", [[1.0, -0.5, 0.25], [0.5, 0.0, -1.5], [-0.75, 2.0, 0.0]])[:len(terms)]
    steps = S.choice("steps", [1, 2, 3, 4] if n == 1 or S.thorough and len(terms) < 3 else [1, 2, 3] if S.thorough else [1, 2])
    check_derivative(S, terms, cs, PauliSum([PauliTerm(o, c) for o, c in zip(terms, cs)]), n, S.real("t", -8, 8), steps)


@scenario()
def derivatives_many_steps(S):
    """five and more steps, one qubit"""
    steps = S.choice("steps", [4, 5, 6, 8] + ([10] if S.thorough else []))
    terms, cs = S.choice("terms", [([{0: "X"}], [1.0]), ([{0: "Y"}], [-0.5]), ([{0: "X"}, {0: "Z"}], [1.0, 0.0])] + ([([{0: "X"}, {0: "Z"}], [1.0, -1.0])] if S.thorough else []))
    check_derivative(S, terms, cs, PauliSum([PauliTerm(o, c) for o, c in zip(terms, cs)]), 1, S.real("t", -8, 8), steps)


@scenario()
def derivatives_numeric(S):
    """many terms and steps at given times"""
    steps = S.choice("steps", [1, 3, 5, 7] if S.thorough else [1, 5])
    terms, cs = S.choice("terms", [([{0: "X"}, {0: "Z"}, {0: "X"}, {0: "Y"}, {}], [0.5, -1.25, 0.75, 0.3, 2.0]),
                                   ([{1: "X"}, {0: "X"}, {1: "Z", 0: "Y"}, {0: "X"}, {1: "X"}], [0.5, 0.25, -1.0, 1e-3, 40.0]),
                                   ([{0: "X", 1: "Y", 2: "Z"}, {2: "X"}, {1: "Z"}], [-0.5, 1.5, 0.7])])
    n = max(width(o) for o in terms)
    check_derivative(S, terms, cs, PauliSum([PauliTerm(o, c) for o, c in zip(terms, cs)]), n, S.choice("t", [0.0, 0.7, -5.5] if S.thorough else [-5.5]), steps)


@scenario()
def derivatives_reject_imaginary(S):
    im = S.real("im")
    S.assume(abs(im) > 2e-9)
    h = PauliSum([PauliTerm("Z0", 0.5), PauliTerm("X0", S._mkc(S.real("re", 0.1, 4), im))])
    S.raises("imaginary coefficient", (Exception,), time_evolution_derivatives, h, S.real("t"), n_steps=S.choice("steps", [1, 2]))
