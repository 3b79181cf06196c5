"""C09: operator-to-matrix conversions agree with the operator's definition."""
import itertools

import numpy as np
import scipy.sparse
from orquestra.quantum.operators import (PauliSum, PauliTerm, expectation, get_expectation_value, get_sparse_operator,
                                         hermitian_conjugated, is_hermitian, reverse_qubit_order)
from orquestra.quantum.operators._utils import get_pauliop_from_coeffs_and_labels, get_pauliop_from_matrix
from orquestra.quantum.wavefunction import Wavefunction

from symx import core, sparse
from symx.api import scenario

from . import lib

BOUNDS = ("sparse matrices: every Pauli string on 3 qubits (4 thorough) and strings with gaps, registers up to 2 qubits wider, "
          "sums of 0-3 terms over every choice of strings from a pool (repeated and cancelling ones included), arbitrary complex "
          "coefficients; Hermitian conjugates/tests of the same; Pauli expansion: every 1x1 and 2x2 complex matrix, 4x4 with any "
          "generalised diagonal arbitrary; qubit reversal: sums on up to 4 qubits; expectation values: arbitrary normalised states "
          "of 1-2 (3) qubits, vectors, column vectors and density matrices; wider: terms of up to 7 factors on 5-8 qubits, sums of up to 12 terms, "
          "expectation values on 4-6 qubits for states with 4 arbitrary amplitudes, reversal of up to 12 qubits, 16x16 expansion with "
          "one arbitrary entry")
OUTSIDE = ("scipy.sparse is a model over symbolic entries (csc/csr/coo, kron, products); larger registers; the sign character of "
           "coefficient literals in the 4x4 and the complex 2x2 Pauli expansion; rounding")
setup_symbolic = sparse.register


def term(s, coef, labels=None):
    return PauliTerm({q: c for q, c in zip(labels or range(len(s)), s) if c != "I"}, coef)


def strmat(s):
    M = [[1]]
    for c in s:
        M = lib.kron(M, lib.PAULI[c])
    return M


def sizeable(S, name):
    """a coefficient that is not within the tolerance of zero (such terms are dropped, see C03)"""
    c = S.cplx(name, 4)
    S.assume(S.any(c.real > 0.001, c.real < -0.001, c.imag > 0.001, c.imag < -0.001))
    return c


def denoted(S, op, n):
    T = lib.zeros(2**n)
    for t in op.terms:
        T = lib.add(T, lib.scale(S.num(t.coefficient), lib.pauli_matrix(dict(t.operations), n)))
    return T


def dense(S, M):
    return lib.tolist(S.arr(M))


def check_sparse(S, op, n, want, label, arg=True):
    M = get_sparse_operator(op, n) if arg else get_sparse_operator(op)
    S.check(tuple(M.shape) == (2**n, 2**n), f"{label}: dimension")
    if tuple(M.shape) == (2**n, 2**n):
        S.close_mat(dense(S, M), want, label)


@scenario()
def sparse_term(S):
    n = S.choice("n", [1, 2, 3, 4] if S.thorough else [1, 2, 3])
    s = S.choice("s", list(itertools.product("IXYZ", repeat=n)))
    c = S.cplx("c", 4)
    t = term(s, c)
    w = S.choice("w", [None, n, n + 1, n + 2] if n < 3 else [None, n, n + 1])
    if w is None:
        w = max([i + 1 for i, x in enumerate(s) if x != "I"] + [0])
        check_sparse(S, t, w, lib.scale(c, strmat(s[:w])), "own width", arg=False)
        S.check(t.n_qubits == w, "width of the term")
    else:
        check_sparse(S, t, w, lib.scale(c, strmat(s + ("I",) * (w - n))), f"{''.join(s)} on {w} qubits")


@scenario()
def sparse_gaps(S):
    """gaps, written in any order"""
    ops = S.choice("ops", [{3: "Y"}, {0: "Y", 3: "X"}, {3: "Z", 1: "Y"}, {2: "Y", 0: "Y"}, {4: "Y", 0: "Z"}, {1: "X", 4: "Y", 3: "Z"}])
    w = S.choice("w", [4, 5, 6] if S.thorough else [5])
    if w <= max(ops):
        return
    c = S.cplx("c", 4)
    check_sparse(S, PauliTerm(ops, c), w, lib.scale(c, lib.pauli_matrix(ops, w)), "term with gaps")


POOL = [("X", "I"), ("Y", "Z"), ("I", "I"), ("Z", "Y"), ("Y", "I")]


def make_sum(S, pool, lo, hi, labels=None, kind=None):
    n = S.choice("terms", list(range(lo, hi + 1)))
    ts = []
    for i in range(n):
        s = S.choice(f"s{i}", pool)
        k = kind or S.choice(f"k{i}", ["c", "r", "e"] if i == 0 else ["c"])
        c = sizeable(S, f"c{i}") if k == "s" else S.cplx(f"c{i}", 4) if k == "c" else S.real(f"c{i}", -4, 4) if k == "r" else S.choice("exact", [1, -2.5, 1j, 0, 0.0])
        ts.append(term(s, c, labels))
    return PauliSum(ts)


@scenario(weight=2)
def sparse_sum(S):
    op = make_sum(S, POOL, 0, 3 if S.thorough else 2)
    w = S.choice("w", [2, 3])
    check_sparse(S, op, w, denoted(S, op, w), "matrix of a sum")


@scenario()
def sparse_sum_cancelling(S):
    """terms that cancel or overlap; the sum of the terms' matrices"""
    s = S.choice("s", [("Y", "X"), ("Z", "I"), ("I", "I"), ("I", "Y")])
    t = S.choice("t", [("Y", "X"), ("X", "Y"), ("I", "I")])
    c, d = S.cplx("c", 4), S.cplx("d", 4)
    how = S.choice("how", ["cancel", "twice", "both"])
    ts = {"cancel": [term(s, c), term(s, -c)], "twice": [term(s, c), term(s, d)], "both": [term(s, c), term(t, d), term(s, -c)]}[how]
    op = PauliSum(ts)
    w = S.choice("w", [None, 2, 3])
    if w is None:
        w = op.n_qubits
        check_sparse(S, op, w, denoted(S, op, w), "cancelling sum", arg=False)
    else:
        check_sparse(S, op, w, denoted(S, op, w), "cancelling sum")


@scenario()
def sparse_zero(S):
    w = S.choice("w", [0, 1, 2, 3])
    op = S.choice("op", [PauliSum(), PauliSum([]), PauliTerm("I0", 0), PauliTerm({}, 0.0), PauliSum([PauliTerm("Z0", 0)])])
    if w < op.n_qubits:
        return
    check_sparse(S, op, w, lib.zeros(2**w), "zero operator")
    if not w:
        check_sparse(S, op, 0, [[0]], "zero operator, own width", arg=False)


@scenario()
def too_narrow(S):
    t = term(("Y", "I", "X"), S.cplx("c"))
    for op in (t, PauliSum([t])):
        for w in (0, 1, 2):
            S.raises("register narrower than the operator", (ValueError,), get_sparse_operator, op, w)


@scenario(weight=2)
def conjugate_and_hermitian(S):
    kind = S.choice("kind", ["term", "sum"])
    if kind == "term":
        s = S.choice("s", list(itertools.product("IXYZ", repeat=2)))
        op = term(s, S.cplx("c", 4))
        want = lib.scale(op.coefficient, strmat(s))
        cs = [op.coefficient]
    else:
        pool = S.choice("pool", [[("X", "Y"), ("Y", "I"), ("I", "I")], [("Z", "Y"), ("I", "X"), ("Y", "Y")]])
        k = S.choice("n", [0, 1, 2, 3])
        cs = [S.cplx(f"c{i}", 4) for i in range(k)]
        for c in cs:  # simplified: distinct strings, no vanishing coefficient
            S.assume(c.real * c.real + c.imag * c.imag > 0.0001)
        op = PauliSum([term(s, c) for s, c in zip(pool, cs)])
        want = denoted(S, op, 2)
    h = hermitian_conjugated(op)
    S.check(type(h) is type(op), "same kind of operator")
    S.close_mat(denoted(S, h, 2), lib.dag(want), "conjugate transpose")
    S.close_mat(dense(S, get_sparse_operator(h, 2)), lib.dag(dense(S, get_sparse_operator(op, 2))), "conjugate transposed matrix")
    S.close_mat(denoted(S, op, 2), want, "operator unchanged")
    r = bool(is_hermitian(op))
    M = get_sparse_operator(op, 2)
    if cs:
        exact = S.all(*[S.eq(c.imag, 0) for c in cs])
        far = S.any(*[S.any(c.imag > 0.001, c.imag < -0.001) for c in cs])
        S.check(S.any(S.no(exact), r), "a Hermitian operator is reported as such")
        S.check(S.any(S.no(far), not r), "an operator that is not Hermitian is reported as such")
        m = bool(is_hermitian(M))
        S.check(S.any(S.no(exact), m), "Hermitian sparse matrix")
        S.check(S.any(S.no(far), not m), "non-Hermitian sparse matrix")
    else:
        S.check(r, "zero is Hermitian")


@scenario()
def hermitian_matrix(S):
    """the same questions about matrices"""
    M = S.array([[S.cplx("a"), S.cplx("b")], [S.cplx("c"), S.cplx("d")]])
    if S.flag("hermitian"):
        M = M + M.T.conj()
    h = hermitian_conjugated(M)
    S.close_mat(lib.tolist(h), lib.dag(lib.tolist(M)), "conjugate transpose of an array")
    D = lib.tolist(M - h)
    exact = S.all(*[S.eq(v.real, 0) for r in D for v in r], *[S.eq(v.imag, 0) for r in D for v in r])
    far = S.any(*[x for r in D for v in r for p in (v.real, v.imag) for x in (p > 0.001, p < -0.001)])
    r = bool(is_hermitian(M))
    S.check(S.any(S.no(exact), r), "Hermitian array")
    S.check(S.any(S.no(far), not r), "array that is not Hermitian")


def unsigned(S):
    if S.symbolic:
        core.CTX.unsigned_text = True


def roundtrip(S, M, n):
    op = get_pauliop_from_matrix(M)
    S.check(isinstance(op, PauliSum), "a sum")
    S.check(op.n_qubits <= n, "no extra qubits")
    if op.n_qubits > n:
        return
    S.close_mat(denoted(S, op, n), M, "Pauli expansion reproduces the matrix", tol=1e-6)
    S.close_mat(dense(S, get_sparse_operator(op, n)), M, "converting back", tol=1e-6)


@scenario()
def expansion_small(S):
    n = S.choice("n", [0, 1])
    if n == 0:
        return roundtrip(S, [[S.cplx("m")]], 0)
    kinds = S.choice("kinds", ["real", "imag", "diag", "off"])
    if kinds in ("real", "imag"):
        v = S.reals("m", 4, -4, 4)
        if kinds == "imag":
            v = [1j * x for x in v]
        M = [[v[0], v[1]], [v[2], v[3]]]
    else:
        unsigned(S)
        a, b = S.cplx("a"), S.cplx("b")
        M = [[a, 0.5], [1j, b]] if kinds == "diag" else [[1, a], [b, -2j]]
    roundtrip(S, M, 1)


@scenario(weight=2)
def expansion_4x4(S):
    """arbitrary entries on one generalised diagonal i^j = m, the others fixed and distinct"""
    unsigned(S)
    m = S.choice("m", [0, 1, 2, 3])
    M = [[complex(1 + i, 2 * j - i) for j in range(4)] for i in range(4)]
    for i in range(4):
        M[i][i ^ m] = S.cplx(f"m{i}", 4) if i < (3 if S.thorough else 2) else 0.5
    if m == 1 and S.flag("array"):
        M = S.array(M)
        return roundtrip(S, lib.tolist(M), 2)
    roundtrip(S, M, 2)


@scenario()
def expansion_8x8(S):
    """two arbitrary entries"""
    unsigned(S)
    i, j = S.choice("ij", [(0, 0), (1, 6), (7, 2), (3, 5), (6, 6)] if S.thorough else [(1, 6), (7, 2)])
    M = lib.zeros(8)
    M[i][j] = S.cplx("a", 4)
    M[2][4] = S.cplx("b", 4) if S.thorough else 1j
    M[0][5] = 0.25 - 1j
    roundtrip(S, M, 3)


@scenario()
def expansion_rejects(S):
    for M in ([[1, 2, 3], [4, 5, 6], [7, 8, 9]], [[1, 2]], [[1], [2]]):
        r = S.catch(get_pauliop_from_matrix, M)
        S.check(hasattr(r, "exc"), "not a 2^n x 2^n matrix")


@scenario()
def coefficients_and_labels(S):
    """the sum written as coefficients and integer labels"""
    labels = S.choice("labels", [[[1, 2]], [[0, 3], [2, 0]], [[1, 1, 0], [2, 0, 3]], [[0, 0]], [[3, 2], [3, 2]]])
    cs = [S.cplx(f"c{i}", 4) for i in range(len(labels))]
    op = get_pauliop_from_coeffs_and_labels(cs, labels)
    n = len(labels[0])
    W = lib.zeros(2**n)
    for c, l in zip(cs, labels):
        W = lib.add(W, lib.scale(c, strmat(["IXYZ"[x] for x in l])))
    S.close_mat(denoted(S, op, n), W, "the labelled sum", tol=1e-6)


def bitrev(M, n):
    r = [lib.index(lib.bits(i, n)[::-1]) for i in range(2**n)]
    return [[M[r[i]][r[j]] for j in range(2**n)] for i in range(2**n)]


@scenario()
def reversal(S):
    labels = S.choice("labels", [(0, 1), (0, 2), (1, 3), (3, 0)])
    kind = S.choice("kind", ["sum", "term"])
    op = make_sum(S, POOL[:4] if S.thorough else POOL[:3], 0, 2, labels, kind="s") if kind == "sum" else \
        term(S.choice("s", list(itertools.product("IXYZ", repeat=2))), S.cplx("c"), labels)
    n = S.choice("n", [None, 4] + ([5] if S.thorough else []))
    w = op.n_qubits if n is None else n
    r = reverse_qubit_order(op) if n is None else reverse_qubit_order(op, n)
    S.check(isinstance(r, PauliSum), "a sum")
    S.check(r.n_qubits <= w, "no extra qubits")
    if r.n_qubits > w:
        return
    A = denoted(S, op, w)
    S.close_mat(denoted(S, r, w), bitrev(A, w), "bit-reversed matrix", tol=1e-6)
    b = reverse_qubit_order(r, w)
    S.close_mat(denoted(S, b, w), A, "twice is the identity", tol=1e-6)
    if w:
        S.raises("register narrower than the operator", (ValueError,), reverse_qubit_order, op, op.n_qubits - 1) if op.n_qubits else None


def quad(v, M):
    u = lib.apply(M, v)
    s = 0
    for a, b in zip(v, u):
        s = s + lib.conj(a) * b
    return s


@scenario(weight=2)
def expectations(S):
    n = S.choice("n", [1, 2, 3] if S.thorough else [1, 2])
    v = S.unit("psi", 2**n)
    pool = {1: ["I", "X", "Y", "Z"], 2: ["YI", "XY", "ZZ", "IY", "II", "YX"], 3: ["YIX", "IYZ", "XXY", "ZII"]}[n]
    k = S.choice("k", ["term", "sum", "empty"])
    if k == "empty":
        op = PauliSum()
    else:
        s = S.choice("s", pool)
        op = term(s, sizeable(S, "c"))
        if k == "sum":
            op = PauliSum([op, term(S.choice("s2", [p for p in pool[:3] if p != s]), sizeable(S, "d")), PauliTerm({}, 0.5)])
    wf = Wavefunction(S.array(v))
    rev = S.flag("reverse")
    M = denoted(S, op, n)
    S.close(get_expectation_value(op, wf, reverse_operator=rev), quad(v, bitrev(M, n) if rev else M), "quadratic form", tol=1e-7)


@scenario()
def expectation_forms(S):
    """expectation() of a sparse operator in a vector, a column vector, a density matrix"""
    v = S.unit("psi", 4)
    op = PauliSum([term(S.choice("s", ["YI", "XY", "IZ", "II"]), sizeable(S, "c")), term("YY", sizeable(S, "d"))])
    A = get_sparse_operator(op, 2)
    M = denoted(S, op, 2)
    form = S.choice("form", ["vector", "column", "density"])
    if form == "vector":
        S.close(expectation(A, S.array(v)), quad(v, M), "vector")
    elif form == "column":
        S.close(expectation(A, S.array([[x] for x in v])), quad(v, M), "column vector")
    else:
        rho = [[a * lib.conj(b) for b in v] for a in v]
        cm = sparse.MODEL.csc_matrix if S.symbolic else scipy.sparse.csc_matrix
        S.close(expectation(A, cm(S.array(rho))), quad(v, M), "density matrix")


# ---------------- sizes
WIDE = [("YXZYX", (0, 1, 2, 3, 4)), ("ZZZZ", (0, 1, 3, 4)), ("XYZX", (4, 0, 2, 3)), ("Y", (4,)), ("YYYYYY", (0, 1, 2, 3, 4, 5)),
        ("ZX", (5, 0)), ("X", (0,)), ("", ()), ("YXYZZXY", (6, 5, 4, 3, 2, 1, 0))]


def wide_term(i, c):
    letters, pos = WIDE[i]
    return PauliTerm(dict(zip(pos, letters)), c)


def entries(ops, n):
    """the non-zero entries of a Pauli string: row -> (column, value)"""
    out = {}
    for r in range(2**n):
        b, v = list(lib.bits(r, n)), 1
        for q, p in ops.items():
            if p in "XY":
                # <b| P |b'> with b' = 1 - b
                v = v * (1 if p == "X" else (-1j if b[q] == 0 else 1j))
                b[q] = 1 - b[q]
            elif p == "Z":
                v = v * (-1 if b[q] else 1)
        out[r] = (lib.index(b), v)
    return out


def wide_matrix(S, pairs, n):
    M = lib.zeros(2**n)
    for ops, c in pairs:
        for r, (k, v) in entries(ops, n).items():
            M[r][k] = c * v if lib.is0(M[r][k]) else M[r][k] + c * v
    return M


@scenario()
def sparse_wide(S):
    """many factors and gaps on 5-8 qubits"""
    i = S.pick("i", len(WIDE))
    w = S.choice("w", [5, 6, 7, 8] if S.thorough else [5, 6, 7])
    t = wide_term(i, S.cplx("c", 4))
    if t.n_qubits > w:
        return
    check_sparse(S, t, w, wide_matrix(S, [(dict(t.operations), t.coefficient)], w), "many-factor term")


@scenario()
def sparse_many_terms(S):
    """sums of 4-12 terms"""
    n = S.choice("n", [4, 7, 9, 12])
    w = S.choice("w", [3, 4])
    strs = list(itertools.product("IXYZ", repeat=3))
    st = S.choice("step", [1, 5, 13])
    ts = [term(strs[(st * i * i + 7 * i) % 64], (S.real(f"c{i}", 0.5, 2) if i % 3 else S._mkc(0, S.real(f"c{i}", 0.5, 2))))
          for i in range(n)]
    op = PauliSum(ts)
    want = wide_matrix(S, [(dict(t.operations), t.coefficient) for t in ts], w)
    check_sparse(S, op, w, want, "many terms")
    h = hermitian_conjugated(op)
    S.check(len(h.terms) == n, "as many terms")
    S.close_mat(wide_matrix(S, [(dict(t.operations), S.num(t.coefficient)) for t in h.terms], w), lib.dag(want), "conjugate of many terms")


@scenario()
def hermitian_many(S):
    """one coefficient among many decides"""
    n = S.choice("n", [5, 9, 12])
    j = S.choice("j", [0, n // 2, n - 1])
    strs = list(itertools.product("IXYZ", repeat=2))
    two = S.flag("two")
    x = S.real("x", -3, 3)
    ts = [term(strs[(5 * i + 2) % 16], S._mkc(1.0 + i, x if i == j else -1 * x if two and i == (j + 1) % n else 0)) for i in range(n)]
    op = PauliSum(ts)
    M = get_sparse_operator(op, 2)
    for r, label in ((bool(is_hermitian(op)), "operator"), (bool(is_hermitian(M)), "matrix")):
        S.check(S.any(S.no(S.eq(x, 0)), r), f"Hermitian {label} of many terms")
        S.check(S.any(S.all(x <= 0.001, x >= -0.001), not r), f"non-Hermitian {label} of many terms")


@scenario()
def expectation_wide(S):
    """complex states of 4-6 qubits with a few arbitrary amplitudes"""
    n = S.choice("n", [4, 5, 6])
    i = S.choice("i", [0, 2, 3, 4, 5, 7])
    t = wide_term(i, S.real("c", 0.5, 2))
    if t.n_qubits > n:
        t = PauliTerm({q % n: p for q, p in t.operations}, t.coefficient)
    a = S.unit("psi", 4)
    e0 = entries(dict(t.operations), n)
    rev = S.flag("reverse")
    if rev:
        e0 = entries({n - 1 - q: p for q, p in t.operations}, n)
    k0 = S.choice("at", [1, 2**n - 2])
    idx = []
    for k in (k0, e0[k0][0], 6, e0[6][0], 3, 9, 12):
        if k not in idx:
            idx.append(k)
    v = [0] * 2**n
    for k, x in zip(idx, a):
        v[k] = x
    op = t if S.flag("term") else PauliSum([t, PauliTerm({0: "Z", n - 1: "Z"}, 0.5), PauliTerm({1: "Z"}, 2.0)])
    terms = [dict(x.operations) for x in op.terms]
    if rev:
        terms = [{n - 1 - q: p for q, p in o.items()} for o in terms]
    want = S.num(0)
    for o, x in zip(terms, op.terms):
        e = entries(o, n)
        for r in idx[:4]:
            c, f = e[r]
            if not lib.is0(v[c]):
                want = want + lib.conj(v[r]) * v[c] * f * S.num(x.coefficient)
    S.close(get_expectation_value(op, Wavefunction(S.array(v)), reverse_operator=rev), want, "quadratic form on a wide register", tol=1e-7)


@scenario()
def reversal_wide(S):
    """strings of many factors, many terms, wide registers: q -> n-1-q"""
    n = S.choice("n", [5, 7, 9, 12])
    pick = S.choice("terms", [[0], [1], [4], [8], [0, 2, 5], [3, 6, 1, 4, 5], [7, 0]])
    ts = [wide_term(i, S.real(f"c{i}", 0.5, 2)) for i in pick]
    if max(t.n_qubits for t in ts) > n:
        return
    op = PauliSum(ts)
    r = reverse_qubit_order(op, n)
    got = {frozenset(t.operations): S.num(t.coefficient) for t in r.terms}
    want = {frozenset((n - 1 - q, p) for q, p in t.operations): t.coefficient for t in ts}
    S.check(set(got) == set(want), "reversed strings")
    if set(got) == set(want):
        S.close_all([(got[k], want[k]) for k in want], "coefficients of the reversed terms")
    b = reverse_qubit_order(r, n)
    S.check({frozenset(t.operations) for t in b.terms} == {frozenset(t.operations) for t in ts}, "twice is the identity")


@scenario()
def expansion_16x16(S):
    unsigned(S)
    i, j = S.choice("ij", [(3, 12), (0, 8), (9, 9)])
    M = lib.zeros(16)
    M[i][j] = S.cplx("a", 4)
    M[5][2] = 1j
    roundtrip(S, M, 4)
