"""C03: Pauli operator arithmetic is faithful to matrix arithmetic."""
import itertools

import numpy as np

from orquestra.quantum.operators import PauliSum, PauliTerm

from symx.api import scenario

from . import lib

BOUNDS = ("terms: every pair of Pauli strings on 2 qubits (3 in thorough), arbitrary complex coefficients |re|,|im|<=4 "
          "and real/int/exact ones; sums of up to 2 (quick) / 3 (thorough) terms with duplicate and cancelling strings, "
          "empty sums; number operands int/float/complex on either side; powers 0..5 of terms, 0..3 of sums (4 thorough), powers to 16 (20) of one-term and to 7 of two-term operators; terms of up to 6 factors on qubit numbers up to 2^33, sums of up to 16 (33) terms, coefficients and scalars to 1e9; "
          "equality: sums of up to 2 (3) simplified terms in any order, coefficients within and beyond tolerance; numpy floats and complex numbers on either side (fixed ones)")
OUTSIDE = ("more qubits/terms; floating-point rounding; tolerance: results compared up to 1e-6, terms at most 1e-8 are "
           "dropped by the library; numpy integers as operands (refused by the library) and overflow of fixed-width numpy coefficients")

STR2 = list(itertools.product("IXYZ", repeat=2))


def term(s, coef, labels):
    return PauliTerm({q: c for q, c in zip(labels, s) if c != "I"}, coef)


def strmat(s):
    M = [[1]]
    for c in s:
        M = lib.kron(M, lib.PAULI[c])
    return M


def matrix(S, op, labels):
    """Denoted matrix of whatever an operation returned, read through the public interface."""
    n = len(labels)
    T = lib.zeros(2**n)
    for t in op.terms:
        ops = dict(t.operations)
        S.check(set(ops) <= set(labels), "acts on no other qubit")
        S.check(set(ops.values()) <= set("XYZ"), "no identity entries")
        T = lib.add(T, lib.scale(S.num(t.coefficient), strmat([ops.get(q, "I") for q in labels])))
    return T


def same(S, op, labels, want, label, tol=1e-6):
    S.check(isinstance(op, (PauliTerm, PauliSum)), label + ": is an operator")
    S.close_mat(matrix(S, op, labels), want, label, tol=tol)


def coef(S, name, kinds=("c",)):
    k = S.choice(name + "k", list(kinds))
    if k == "c":
        return S.cplx(name, 4)
    if k == "r":
        return S.real(name, -4, 4)
    if k == "i":
        return S.int(name, -5, 5)
    return S.choice(name + "e", [0, 1, -1, 0.5, 1j, -2 - 3j, 0.0])


LABELS2 = [(0, 1), (1, 0), (0, 3), (7, 2)]


@scenario()
def term_times_term(S):
    labels = S.choice("labels", LABELS2 if S.thorough else [(0, 1), (5, 2)])
    a = S.choice("a", STR2)
    b = S.choice("b", STR2)
    ka, kb = S.cplx("ka"), S.cplx("kb")
    ta, tb = term(a, ka, labels), term(b, kb, labels)
    want = lib.mul(lib.scale(ka, strmat(a)), lib.scale(kb, strmat(b)))
    p = ta * tb
    S.check(isinstance(p, PauliTerm), "product of terms is a term")
    same(S, p, labels, want, f"{''.join(a)} * {''.join(b)}")
    same(S, ta, labels, lib.scale(ka, strmat(a)), "left operand unchanged")


@scenario()
def term_times_term_3(S):
    labels = (0, 1, 2)
    a = S.choice("a", list(itertools.product("IXYZ", repeat=3)) if S.thorough else
                 [tuple("XYZ"), tuple("ZXY"), tuple("YZX"), tuple("XXY"), tuple("IZY"), tuple("YIX")])
    b = S.choice("b", list(itertools.product("IXYZ", repeat=3)))
    ka, kb = S.cplx("ka"), S.cplx("kb")
    same(S, term(a, ka, labels) * term(b, kb, labels), labels,
         lib.mul(lib.scale(ka, strmat(a)), lib.scale(kb, strmat(b))), "product on three qubits")


@scenario()
def coefficient_kinds(S):
    labels = (0, 1)
    a, b = S.choice("a", [("X", "I"), ("Y", "Z"), ("I", "I")]), S.choice("b", [("Y", "I"), ("Y", "Z"), ("Z", "X")])
    ka, kb = coef(S, "ka", ("c", "r", "i", "e")), coef(S, "kb", ("r", "i", "e"))
    ma, mb = lib.scale(ka, strmat(a)), lib.scale(kb, strmat(b))
    ta, tb = term(a, ka, labels), term(b, kb, labels)
    op = S.choice("op", ["*", "+", "-"])
    if op == "*":
        same(S, ta * tb, labels, lib.mul(ma, mb), "product")
    elif op == "+":
        same(S, ta + tb, labels, lib.add(ma, mb), "sum")
    else:
        same(S, ta - tb, labels, lib.sub(ma, mb), "difference")


@scenario()
def term_add_sub(S):
    labels = S.choice("labels", [(0, 1), (4, 1)]) if S.thorough else (4, 1)
    a, b = S.choice("a", STR2), S.choice("b", STR2)
    ka, kb = S.cplx("ka"), S.cplx("kb")
    ta, tb = term(a, ka, labels), term(b, kb, labels)
    ma, mb = lib.scale(ka, strmat(a)), lib.scale(kb, strmat(b))
    same(S, ta + tb, labels, lib.add(ma, mb), "term + term")
    same(S, ta - tb, labels, lib.sub(ma, mb), "term - term")
    same(S, ta, labels, ma, "left operand unchanged")
    same(S, tb, labels, mb, "right operand unchanged")


POOL = [("X", "I"), ("Y", "I"), ("Z", "Y"), ("I", "I"), ("X", "Z")]


def operand(S, name, labels, kinds, maxlen=2, ck=("c",), pool=POOL):
    """(object, matrix)"""
    k = S.choice(name + "kind", list(kinds))
    d = 2 ** len(labels)
    if k == "term":
        s, c = S.choice(name + "s", pool), coef(S, name + "c", ck)
        return term(s, c, labels), lib.scale(c, strmat(s))
    if k == "sum":
        n = S.choice(name + "n", list(range(maxlen + 1)))
        ts, M = [], lib.zeros(d)
        for i in range(n):
            s, c = S.choice(f"{name}s{i}", pool if i == 0 or S.thorough else pool[-2:]), coef(S, f"{name}c{i}", ck)
            ts.append(term(s, c, labels))
            M = lib.add(M, lib.scale(c, strmat(s)))
        return PauliSum(ts), M
    c = {"int": lambda: S.int(name, -6, 6), "float": lambda: S.real(name, -4, 4), "complex": lambda: S.cplx(name),
         "exact": lambda: S.choice(name + "e", [0, 2, -1, 1.5, 1j])}[k]()
    return c, lib.scale(c, lib.eye(d))


def arith(S, la, a, ma, lb, b, mb, ops, labels):
    op = S.choice("op", ops)
    if op == "+":
        r, w = a + b, lib.add(ma, mb)
    elif op == "-":
        r, w = a - b, lib.sub(ma, mb)
    else:
        r, w = a * b, lib.mul(ma, mb)
    same(S, r, labels, w, f"{la} {op} {lb}")


@scenario(weight=2)
def sum_sum(S):
    labels = (0, 1)
    a, ma = operand(S, "a", labels, ["sum"], 2, pool=POOL[:3] if not S.thorough else POOL)
    b, mb = operand(S, "b", labels, ["sum"], 2 if S.thorough else 1)
    arith(S, "sum", a, ma, "sum", b, mb, "+-*", labels)


@scenario(weight=2)
def sum_term(S):
    labels = (2, 0)
    first = S.flag("sumfirst")
    a, ma = operand(S, "a", labels, ["sum"], 2, pool=POOL if S.thorough else POOL[1:4])
    b, mb = operand(S, "b", labels, ["term"], pool=POOL if S.thorough else POOL[:4])
    if first:
        arith(S, "sum", a, ma, "term", b, mb, "+-*", labels)
    else:
        arith(S, "term", b, mb, "sum", a, ma, "+-*", labels)


@scenario(weight=2)
def with_numbers(S):
    labels = (0, 1)
    first = S.flag("numberfirst")
    a, ma = operand(S, "a", labels, ["term", "sum"], 2, pool=POOL if S.thorough else POOL[2:4])
    b, mb = operand(S, "b", labels, ["int", "float", "complex", "exact"])
    if first:
        arith(S, "number", b, mb, "operator", a, ma, "+-*", labels)
    else:
        arith(S, "operator", a, ma, "number", b, mb, "+-*", labels)


@scenario()
def division(S):
    labels = (0, 1)
    a, ma = operand(S, "a", labels, ["term", "sum"], 2)
    k = S.choice("k", ["int", "float", "complex", "exact"])
    if k == "exact":
        d = S.choice("d", [2, -4, 0.5, 1j, 1 - 1j])
    elif k == "complex":
        d = S.cplx("d")
        S.assume(abs(d.real) >= 0.1)
    else:
        d = S.int("d", -6, 6) if k == "int" else S.real("d", -4, 4)
        S.assume(S.any(d >= 0.1, d <= -0.1))
    r = a / d
    same(S, r, labels, lib.scale(S.num(1) / S.num(d), ma), "division by a number")


@scenario()
def powers_of_terms(S):
    labels = (0, 3)
    s = S.choice("s", STR2)
    c = coef(S, "c", ("c", "r", "i"))
    k = S.choice("p", [0, 1, 2, 3, 4, 5] if S.thorough else [0, 1, 2, 3, 5])
    M, W = lib.scale(c, strmat(s)), lib.eye(4)
    for _ in range(k):
        W = lib.mul(W, M)
    r = term(s, c, labels) ** k
    S.check(isinstance(r, PauliTerm), "power of a term is a term")
    same(S, r, labels, W, f"term**{k}", tol=1e-5)


@scenario(weight=2)
def powers_of_sums(S):
    labels = (0, 1)
    n = S.choice("n", [0, 1, 2])
    k = S.choice("p", [0, 1, 2, 3] + ([4] if S.thorough else []))
    ts, M = [], lib.zeros(4)
    for i in range(n):
        s = S.choice(f"s{i}", POOL if i == 0 else [POOL[1], POOL[2]])
        c = S.real(f"c{i}", -2, 2) if not (S.thorough and k <= 2) else S.cplx(f"c{i}", 2)
        if k >= 3:  # terms the library drops half-way would only be bounded by a hard nonlinear query
            S.assume(S.any(c >= 0.01, c <= -0.01))
        if i == 1 and S.flag("im"):
            c = c * 1j
        ts.append(term(s, c, labels))
        M = lib.add(M, lib.scale(c, strmat(s)))
    W = lib.eye(4)
    for _ in range(k):
        W = lib.mul(W, M)
    same(S, PauliSum(ts) ** k, labels, W, f"sum**{k}", tol=1e-5)


@scenario()
def bad_powers(S):
    t = PauliTerm({0: "X"}, S.real("c"))
    p = S.choice("p", [-1, -3, 0.5, "2"])
    S.raises("negative/fractional power of a term", (ValueError,), lambda: t**p)
    S.raises("negative/fractional power of a sum", (ValueError,), lambda: PauliSum([t]) ** p)


@scenario(weight=2)
def simplify(S):
    labels = (0, 1)
    n = S.choice("n", [0, 1, 2, 3, 4] if S.thorough else [0, 1, 2, 3])
    ts, M = [], lib.zeros(4)
    for i in range(n):
        s = S.choice(f"s{i}", [("X", "I"), ("I", "I"), ("Z", "Y")] if n < 4 else [("X", "I"), ("Z", "Y")])
        c = coef(S, f"c{i}", ("c",) if i else ("c", "r"))
        ts.append(term(s, c, labels))
        M = lib.add(M, lib.scale(c, strmat(s)))
    r = PauliSum(ts).simplify()
    same(S, r, labels, M, "simplify keeps the matrix", tol=1e-7)
    S.check(len({t.operations for t in r.terms}) == len(r.terms), "simplify merges like terms")
    S.check(len(r.terms) <= n, "simplify adds nothing")
    same(S, r.simplify(), labels, M, "simplify twice", tol=1e-7)


# ---- equality
def coef_table(S, op):
    d = {}
    for t in op.terms:
        d[t.operations] = d.get(t.operations, 0) + S.num(t.coefficient)
    return d


def dist(S, A, B):
    """pairs (|delta re|, |delta im|, size)"""
    da, db = coef_table(S, A), coef_table(S, B)
    out = []
    for k in list(da) + [k for k in db if k not in da]:
        x, y = S.num(da.get(k, 0)), S.num(db.get(k, 0))
        out.append((x - y, y, x))
    return out


def equality_oracle(S, A, B, r, label):
    S.check(isinstance(r, bool) or type(r).__name__ in ("bool_", "SBool"), label + ": boolean")
    r = S.truth(r)
    ds = dist(S, A, B)
    small = S.all(*[S.all(abs(d.real) <= 1e-9, abs(d.imag) <= 1e-9) for d, _, _ in ds])
    # beyond tolerance: 1e-8 absolute + 1e-5 relative (numpy's allclose), on either operand
    big = S.any(*[S.any(abs(d.real) > 2e-8 + 2e-5 * _size(S, y, x), abs(d.imag) > 2e-8 + 2e-5 * _size(S, y, x))
                  for d, y, x in ds])
    if r:
        S.check(S.no(big), label + ": equal although the matrices differ", info=(A, B))
    else:
        S.check(S.no(small), label + ": unequal although the matrices agree", info=(A, B))


def _size(S, y, x):
    return abs(y.real) + abs(y.imag) + abs(x.real) + abs(x.imag)


def simp(S, name, labels, strs, cplx=False):
    """a simplified operator: distinct strings, coefficients away from zero"""
    ts = []
    for i, s in enumerate(strs):
        c = S.cplx(f"{name}{i}") if cplx else S.real(f"{name}{i}")
        S.assume(abs(S.num(c).real) >= 3e-8)
        ts.append(term(s, c, labels))
    return ts


EQ1 = [[], [("X", "I")], [("I", "I")], [("X", "I"), ("Z", "Y")], [("I", "I"), ("Y", "X")]]


@scenario(weight=2)
def equality_sums(S):
    labels = (0, 1)
    sa = S.choice("sa", EQ1 + ([[("X", "I"), ("Y", "I"), ("I", "I")]] if S.thorough else []))
    sb = S.choice("sb", [sa, sa[::-1]] + [s for s in EQ1 if s != sa])
    cx = S.flag("complex") if len(sa) <= 1 else False
    A, B = PauliSum(simp(S, "a", labels, sa, cx)), PauliSum(simp(S, "b", labels, sb, cx))
    equality_oracle(S, A, B, A == B, "sum == sum")


@scenario()
def equality_terms(S):
    labels = (0, 1)
    a = S.choice("a", [("X", "I"), ("I", "I"), ("Z", "Y")])
    b = S.choice("b", [("X", "I"), ("I", "I"), ("Y", "I")])
    cx = S.flag("cx")
    wrap = S.choice("wrap", ["tt", "ts", "st"])
    ta, tb = [term(s, S.cplx(k) if cx else S.real(k), labels) for s, k in ((a, "ka"), (b, "kb"))]
    if wrap == "ts":
        S.assume(abs(S.num(tb.coefficient).real) >= 3e-8)
        tb = PauliSum([tb])
    elif wrap == "st":
        S.assume(abs(S.num(ta.coefficient).real) >= 3e-8)
        ta = PauliSum([ta])
    equality_oracle(S, ta, tb, ta == tb, "equality " + wrap)


@scenario()
def equality_numbers(S):
    labels = (0, 1)
    k = S.choice("kind", ["term", "sum0", "sum1", "sum2"])
    num = S.choice("num", ["real", "complex", "zero", "one"])
    x = {"real": lambda: S.real("x"), "complex": lambda: S.cplx("x"), "zero": lambda: 0, "one": lambda: 1.0}[num]()
    if k == "term":
        A = term(S.choice("s", [("I", "I"), ("X", "I")]), S.cplx("c"), labels)
    else:
        strs = {"sum0": [], "sum1": [S.choice("s", [("I", "I"), ("X", "I")])], "sum2": [("I", "I"), ("X", "I")]}[k]
        A = PauliSum(simp(S, "c", labels, strs))
    other = PauliTerm({}, x)
    rev = S.flag("reversed")
    r = (x == A) if rev else (A == x)
    equality_oracle(S, A, other, r, f"{k} == number")


@scenario()
def equality_after_arithmetic(S):
    """simplified results of two different computations of the same operator"""
    labels = (0, 1)
    a, b, c = S.real("a"), S.real("b"), S.real("c")
    s, t = S.choice("s", [("X", "I"), ("Z", "Z")]), S.choice("t", [("Y", "I"), ("I", "I")])
    A, B, D = term(s, a, labels), term(t, b, labels), term(s, c, labels)
    for v in (a, b, c, a + c):
        S.assume(abs(v) >= 1e-6)
    L, R = (A + B) + D, B + (D + A)
    equality_oracle(S, L, R, L == R, "(A+B)+D == B+(D+A)")
    x = (A + B) * D - D * (A + B) + (A + B)
    y = (A + B) + A * D - D * A + (B * D - D * B)
    equality_oracle(S, x, y, x == y, "commutator computed two ways")


# ---- larger operators: oracle by independent Pauli-string algebra (letter pairs -> phase and letter)
CYC = {"XY": "Z", "YZ": "X", "ZX": "Y"}


def smul(a, b):
    """product of two strings {qubit: letter}: (power of i, string)"""
    out, ph = dict(a), 0
    for q, l in b.items():
        m = out.get(q)
        if m is None:
            out[q] = l
        elif m == l:
            del out[q]
        elif m + l in CYC:
            out[q], ph = CYC[m + l], ph + 1
        else:
            out[q], ph = CYC[l + m], ph + 3
    return ph % 4, out


IPOW = [1, 1j, -1, -1j]


class Ref:
    """formal sum of strings, {frozenset(items): coefficient}"""

    def __init__(self, d=None):
        self.d = dict(d or {})

    def plus(self, other, k=1):
        r = Ref(self.d)
        for s, c in other.d.items():
            r.d[s] = r.d[s] + k * c if s in r.d else k * c
        return r

    def times(self, other):
        r = Ref()
        for s, c in self.d.items():
            for t, e in other.d.items():
                ph, u = smul(dict(s), dict(t))
                u = frozenset(u.items())
                v = c * e * IPOW[ph]
                r.d[u] = r.d[u] + v if u in r.d else v
        return r


def ref_of(pairs):
    r = Ref()
    for ops, c in pairs:
        r = r.plus(Ref({frozenset(ops.items()): c}))
    return r


def agree(S, op, ref, label, tol=1e-6):
    S.check(isinstance(op, (PauliTerm, PauliSum)), label + ": is an operator")
    got = {}
    for t in op.terms:
        k = frozenset(t.operations)
        S.check({p for _, p in k} <= set("XYZ"), label + ": no identity entries")
        got[k] = got[k] + S.num(t.coefficient) if k in got else S.num(t.coefficient)
    S.close_all([(got.get(k, 0), ref.d.get(k, 0)) for k in set(got) | set(ref.d)], label, tol=tol)


POOLS = [(0, 8, 10, 11, 21, 110), (1, 12, 112, 2, 11, 21), (1000000, 3, 2**33 + 3, 13, 9, 19), (0, 1, 2, 3, 4, 5),
         (7, 17, 6, 15, 23, 31), (255, 511, 0, 256, 64, 32)]
SHAPES = [("XYZ", (0, 1, 2)), ("ZZ", (3, 0)), ("Y", (1,)), ("Y", (3,)), ("XXYZ", (2, 4, 1, 5)), ("ZXYXYZ", (0, 1, 2, 3, 4, 5)), ("", ())]


def shaped(i, pool):
    letters, pos = SHAPES[i]
    return {pool[p]: l for p, l in zip(pos, letters)}


@scenario()
def wide_indices(S):
    """qubit numbers of several digits, up to 6 factors per term: no two different strings are confused"""
    pool = S.choice("pool", POOLS)
    i, j = S.pick("i", len(SHAPES)), S.pick("j", len(SHAPES))
    a, b = shaped(i, pool), shaped(j, pool)
    ka, kb, kc = S.real("ka", 0.5, 1), S.real("kb", 4, 5) * 1j, S.real("kc", 20, 21)
    c = shaped((i + 3) % len(SHAPES), pool)
    A, B, D = PauliTerm(dict(a), ka), PauliTerm(dict(b), kb), PauliTerm(dict(c), kc)
    ra, rb, rd = ref_of([(a, ka)]), ref_of([(b, kb)]), ref_of([(c, kc)])
    agree(S, A * B, ra.times(rb), "term * term")
    agree(S, A + B, ra.plus(rb), "term + term")
    agree(S, PauliSum([A, B, D]).simplify(), ra.plus(rb).plus(rd), "simplify")
    agree(S, (A - D) + B, ra.plus(rd, -1).plus(rb), "sum")
    if i < j:
        return
    agree(S, PauliSum([A, D]) * PauliSum([B, D]), ra.plus(rd).times(rb.plus(rd)), "sum * sum")
    agree(S, A, ra, "left operand unchanged")


@scenario()
def factor_order(S):
    """the same string with its factors given in any order: one term after simplification, equal operators"""
    qs = S.choice("qubits", [(0, 8), (1, 9, 17), (0, 16, 32), (3, 11), (5, 0, 2), (64, 0, 8), (2**31, 0), (7, 15, 23, 31)])
    perms = list(itertools.permutations(range(len(qs))))
    o, o2 = S.choice("order", perms[:6] + perms[-2:]), S.choice("order2", perms[:2] + perms[-1:])
    ops = {q: "XYZX"[i] for i, q in enumerate(qs)}
    a, b = {qs[i]: ops[qs[i]] for i in o}, {qs[i]: ops[qs[i]] for i in o2}
    x, y = S.real("x", 0.5, 2), S.real("y", 3, 5)
    A, B = PauliTerm(dict(a), x), PauliTerm(dict(b), y)
    how = S.choice("how", ["add", "simplify", "product", "text"])
    if how == "product":
        A = PauliTerm({}, x)
        for i in o:
            A = A * PauliTerm({qs[i]: ops[qs[i]]}, 1.0)
    if how == "text":
        A = PauliTerm("*".join(f"{ops[qs[i]]}{qs[i]}" for i in o)) * x
    r = PauliSum([A, B]).simplify() if how == "simplify" else A + B
    agree(S, r, ref_of([(ops, x + y)]), "sum of one string in two orders")
    S.check(len(r.terms) == 1, "like terms are one term after simplification")
    S.check(S.truth(r == PauliSum([PauliTerm(dict(b), x + y)])), "equal to the single term")
    S.check(S.truth(PauliTerm(dict(a), x) == PauliTerm(dict(b), x)), "terms equal regardless of the order of factors")
    S.check(S.truth(PauliSum([PauliTerm(dict(a), x), PauliTerm({1: "Z"}, y)]) == PauliSum([PauliTerm({1: "Z"}, y), PauliTerm(dict(b), x)])), "sums equal")
    agree(S, A - PauliTerm(dict(b), x), ref_of([]), "difference of one string in two orders")


@scenario()
def neighbour_indices(S):
    """one-qubit terms on qubits q and q' stay apart for every pair of a wide range"""
    q = S.choice("q", [0, 1, 2, 7, 9])
    d = S.choice("d", [1, 2, 5, 7, 8, 10, 16, 26, 32, 64, 90, 100, 128, 256, 1000, 1024, 4096, 2**16, 2**31, 2**32])
    x, y = S.real("x"), S.real("y")
    S.assume(S.all(abs(x) >= 0.01, abs(y) >= 0.01))
    l, m = S.choice("ops", ["XX", "YZ"])
    A, B = PauliTerm({q: l}, x), PauliTerm({q + d: m}, y)
    r = A + B
    agree(S, r, ref_of([({q: l}, x), ({q + d: m}, y)]), "sum of terms on different qubits")
    agree(S, A * B, ref_of([({q: l, q + d: m}, x * y)]), "product of terms on different qubits")
    S.check(S.no(S.truth(A == B)), "terms on different qubits are unequal")
    if l != m:
        S.check(S.no(S.truth(PauliSum([A, B]) == PauliSum([PauliTerm({q + d: l}, y), PauliTerm({q: m}, x)]))),
                "sums of different strings are unequal")


@scenario()
def many_terms(S):
    """sums of 5-16 terms with repeated strings"""
    n = S.choice("n", [5, 9, 12, 16] if not S.thorough else [5, 7, 9, 12, 16, 20, 33])
    step = S.choice("step", [1, 3, 7])
    strs = [{p: l for p, l in zip((0, 2, 3), s) if l != "I"} for s in itertools.product("IXYZ", repeat=3)]
    pairs = []
    for i in range(n):
        c = S.real(f"c{i}", 0.5, 2) * (-1 if i % 3 == 1 else 1) * (1j if i % 5 == 2 else 1)
        pairs.append((strs[(step * i * i + i) % (n - 2 if i % 2 else 64)], c))
    op = PauliSum([PauliTerm(dict(o), c) for o, c in pairs])
    ref = ref_of(pairs)
    what = S.choice("what", ["simplify", "*sum", "*term", "term*", "+", "-", "number*", "eq", "/"])
    k = S.real("k", 0.5, 2)
    t, rt = PauliTerm({0: "Y", 2: "X"}, k), ref_of([({0: "Y", 2: "X"}, k)])
    if what == "simplify":
        r = op.simplify()
        agree(S, r, ref, "simplify of many terms")
        S.check(len({x.operations for x in r.terms}) == len(r.terms), "simplify merges like terms")
    elif what == "*sum":
        o = PauliSum([t, PauliTerm({3: "Z"}, 1.0)])
        agree(S, op * o, ref.times(rt.plus(ref_of([({3: "Z"}, 1.0)]))), "many * sum")
    elif what == "*term":
        agree(S, op * t, ref.times(rt), "many * term")
    elif what == "term*":
        agree(S, t * op, rt.times(ref), "term * many")
    elif what == "+":
        agree(S, op + op, ref.plus(ref), "many + many")
    elif what == "-":
        agree(S, op - t, ref.plus(rt, -1), "many - term")
        agree(S, op - op, Ref(), "many - itself")
    elif what == "number*":
        agree(S, k * op, Ref().plus(ref, k), "number * many")
    elif what == "/":
        agree(S, op / k, Ref().plus(ref, 1 / k), "many / number")
    else:
        a = PauliSum([PauliTerm({0: "XYZ"[i % 3], 5 + i: "Z"}, S.real(f"e{i}", 0.5, 2)) for i in range(n)])
        b = PauliSum([x.copy() for x in reversed(a.terms)])
        S.check(S.truth(a == b), "equal up to order")
        j = S.choice("changed", [0, n // 2, n - 1])
        b.terms[j].coefficient = b.terms[j].coefficient + S.real("delta", 0.01, 1)
        S.check(S.no(S.truth(a == b)), "one coefficient differs")


@scenario()
def high_powers(S):
    k = S.choice("p", list(range(4, 10)) + [12, 16] if not S.thorough else list(range(4, 21)))
    what = S.choice("what", ["term", "one", "two"])
    x = S.real("x", 0.5, 1.5)
    if what == "term":
        ops = S.choice("s", [{0: "X", 11: "Y"}, {3: "Z"}, {}])
        op, ref = PauliTerm(dict(ops), x), ref_of([(ops, x)])
    elif what == "one":
        op, ref = PauliSum([PauliTerm({2: "Y"}, x)]), ref_of([({2: "Y"}, x)])
    else:
        if k > 7:
            return
        y = S.choice("y", [0.5, 1j, -1])
        p = S.choice("pair", [({0: "X"}, {0: "Z"}), ({0: "X"}, {1: "Y"}), ({}, {1: "Z"})])
        op = PauliSum([PauliTerm(dict(p[0]), x), PauliTerm(dict(p[1]), y)])
        ref = ref_of([(p[0], x), (p[1], y)])
    want = ref_of([({}, 1)])
    for _ in range(k):
        want = want.times(ref)
    agree(S, op**k, want, f"{what}**{k}", tol=1e-5)


@scenario()
def large_scalars(S):
    """coefficients and scalars far from 1"""
    m = S.choice("m", [1e3, 1e6, 1e9])
    a, b = S.real("a", 1, 4) * m, S.real("b", 1, 4) * m
    kind = S.choice("kind", ["int", "float", "complex"])
    d = {"int": lambda: S.int("d", 1000, 1000000), "float": lambda: S.real("d", 1000, 1e6),
         "complex": lambda: S._mkc(S.real("dr", 1000, 1e6), S.real("di", -10, 1000))}[kind]()
    o1, o2 = {0: "X"}, {1: "Y", 2: "Z"}
    one = S.flag("term")
    op = PauliTerm(dict(o1), a) if one else PauliSum([PauliTerm(dict(o1), a), PauliTerm(dict(o2), -1 * b)])
    ref = ref_of([(o1, a)] if one else [(o1, a), (o2, -1 * b)])
    what = S.choice("what", ["/", "*", "r*", "+", "r-", "**"])
    dn = S.num(d)
    if what == "/":
        agree(S, (op / d) * (1e6 / m), Ref().plus(ref, (1e6 / m) / dn), "large / large", tol=1e-3)
    elif what in ("*", "r*"):
        agree(S, (op * d if what == "*" else d * op) * (1e-6 / m), Ref().plus(ref, dn * (1e-6 / m)), "large * large")
    elif what == "+":
        agree(S, op + d, ref.plus(ref_of([({}, dn)])), "large + large")
    elif what == "r-":
        agree(S, d - op, ref_of([({}, dn)]).plus(ref, -1), "number - operator")
    else:
        agree(S, (op ** 2) * (1 / (m * m)), Ref().plus(ref.times(ref), 1 / (m * m)), "square of a large operator", tol=1e-4)


NUMPY_SCALARS = [np.float64(0.75), np.float64(-3), np.complex128(0.5 - 2j), np.float64(0)]


@scenario()
def numpy_numbers(S):
    """numpy's own float and complex scalars are Python numbers too; on either side, terms and sums"""
    k = S.choice("k", NUMPY_SCALARS)
    labels = [0, 1]
    a, b = S.real("a", 0.1, 4), S.real("b", 0.1, 4)
    what = S.choice("what", ["term", "constant", "sum", "empty"])
    pairs = {"term": [({0: "X", 1: "Y"}, a)], "constant": [({}, a)], "sum": [({0: "X"}, a), ({1: "Z"}, b)], "empty": []}[what]
    op = PauliTerm(*pairs[0]) if what in ("term", "constant") else PauliSum([PauliTerm(dict(o), c) for o, c in pairs])
    ref = ref_of(pairs)
    num = complex(k)
    one = ref_of([({}, num)])
    f = S.choice("f", ["k*A", "A*k", "k+A", "A+k", "k-A", "A-k", "A/k", "k==A"])
    if f == "k*A":
        agree(S, k * op, Ref().plus(ref, num), f)
    elif f == "A*k":
        agree(S, op * k, Ref().plus(ref, num), f)
    elif f == "k+A":
        agree(S, k + op, one.plus(ref), f)
    elif f == "A+k":
        agree(S, op + k, ref.plus(one), f)
    elif f == "k-A":
        agree(S, k - op, one.plus(ref, -1), f)
    elif f == "A-k":
        agree(S, op - k, ref.plus(one, -1), f)
    elif f == "A/k":
        if num == 0:
            return
        agree(S, op / k, Ref().plus(ref, 1 / num), f)
    elif what != "empty":
        r = k == op
        S.check(S.symbolic or isinstance(r, (bool, np.bool_)), "equality of a numpy number and an operator is a truth value", info=r)
        if what != "constant" and num != 0:
            S.check(not r, "a non-constant operator isn't a number", info=r)
