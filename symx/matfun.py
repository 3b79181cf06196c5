"""Contract stubs for sympy's matrix powers and exponential.

For matrices with symbolic entries: integer powers are multiplied out, an inverse is
the adjoint of a matrix shown unitary or a matrix N with M N = N M = I, a power 1/q is
a matrix R with R**q = M, exp(M) is an opaque matrix.  All are functions of M, exp and
inverse commute with the adjoint, fractional powers do when M has no eigenvalue -1;
a fractional power of a unitary matrix is unitary; exp of a Hermitian matrix is
positive definite, and so are its roots.
"""
import math
from fractions import Fraction

import numpy as np
import sympy
from sympy.matrices.common import MatrixArithmetic, NonInvertibleMatrixError
from sympy.matrices.matrices import MatrixBase

from . import core, symp
from .core import ONE, Cx, Unsupported, define, lift, p_add, p_atoms, p_const, p_eval, p_key, p_neg, p_sub, parts

REAL_POW = MatrixArithmetic.__pow__
REAL_POW2 = MatrixArithmetic.pow
REAL_EXP = MatrixBase.exp
REAL_INV = MatrixBase.inv


def entries(M):
    return [[parts(symp.encode(M[i, j])) for j in range(M.shape[1])] for i in range(M.shape[0])]


def key(E):
    return tuple((p_key(r), p_key(i)) for row in E for r, i in row)


def adj(E):
    n = len(E)
    return [[(E[j][i][0], p_neg(E[j][i][1])) for j in range(n)] for i in range(n)]


def cmul(a, b):
    x = core.op_mul(Cx(*a), Cx(*b))
    return parts(x)


def mmul(A, B):
    n = len(A)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            re, im = {}, {}
            for k in range(n):
                a, b = A[i][k], B[k][j]
                if (not a[0] and not a[1]) or (not b[0] and not b[1]):
                    continue
                r, m = cmul(a, b)
                re, im = p_add(re, r), p_add(im, m)
            row.append((re, im))
        out.append(row)
    return out


def ident(n):
    return [[({ONE: 1} if i == j else {}, {}) for j in range(n)] for i in range(n)]


def is_ident(E):
    """up to the rounding of constants such as 2**(-0.5)"""
    for ra, rb in zip(E, ident(len(E))):
        for a, b in zip(ra, rb):
            for x, y in zip(a, b):
                if any(abs(c) > 1e-12 for c in p_sub(x, y).values()):
                    return False
    return True


def to_matrix(E):
    n = len(E)
    return sympy.Matrix(n, n, lambda i, j: symp.to_sympy(Cx(*E[i][j])))


def numeric(E, env):
    return np.array([[complex(p_eval(r, env), p_eval(i, env)) for r, i in row] for row in E])


def store():
    return core.CTX.__dict__.setdefault("matfun", {})


def fresh(tag, E, f, hermitian=False):
    """Matrix of new unknowns; f(numeric M) gives its value."""
    n = len(E)
    k = len(core.CTX.atoms)
    last = [None, None]

    def value(env):
        M = numeric(E, env)
        if last[0] != M.tobytes():
            last[:] = [M.tobytes(), np.asarray(f(M))]
        return last[1]

    deps = tuple({a for row in E for r, i in row for a in p_atoms(r) | p_atoms(i)})
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            ps = []
            if hermitian and j < i:
                row.append((out[j][i][0], p_neg(out[j][i][1])))
                continue
            for part in (0, 1):
                if hermitian and part and i == j:
                    ps.append({})
                    continue
                a = core.CTX.atom(f"{tag}{k}_{i}{j}{'ri'[part]}", -1000, 1000, kind="matfun")
                a.evalf = (lambda env, i=i, j=j, part=part: float(value(env)[i, j].imag if part
                                                                   else value(env)[i, j].real))
                a.deps = deps
                ps.append({((a.id, 1),): 1})
            row.append(tuple(ps))
        out.append(row)
    return out


def must_equal(A, B):
    """Definitions A == B entrywise; the unknowns are the matfun atoms in A."""
    for ra, rb in zip(A, B):
        for a, b in zip(ra, rb):
            for x, y in zip(a, b):
                d = p_sub(x, y)
                ids = [i for i in p_atoms(d) if core.CTX.atoms[i].kind == "matfun"]
                if d:
                    define(ids, core.SBool("eq", d))


def det(E):
    n = len(E)
    if n == 1:
        return E[0][0]
    re, im = {}, {}
    for j in range(n):
        a = E[0][j]
        if not a[0] and not a[1]:
            continue
        minor = [[E[i][k] for k in range(n) if k != j] for i in range(1, n)]
        r, m = cmul(a, det(minor))
        if j % 2:
            r, m = p_neg(r), p_neg(m)
        re, im = p_add(re, r), p_add(im, m)
    return re, im


def is_zero(c):
    re, im = c
    return core.branch(core.to_bool(core.b_and(core.rel("eq", re) if re else core.TRUE,
                                               core.rel("eq", im) if im else core.TRUE)))


def core_block(E):
    """E without leading rows and columns of the identity"""
    n = 0
    while n < len(E) - 1 and all(E[i][j] == (({ONE: 1} if i == j else {}), {}) for i in range(len(E)) for j in range(len(E))
                             if i == n or j == n):
        n += 1
    return [row[n:] for row in E[n:]]


def unitary(E):
    """E is unitary: its products with its adjoint reduce to I, or it comes from a root of a unitary matrix"""
    st = store()
    B = core_block(E)
    k = ("unitary", key(B))
    if k not in st:
        A = adj(B)
        st[k] = is_ident(mmul(B, A)) and is_ident(mmul(A, B))
    return st[k]


def mark(name, E):
    st = store()
    B = core_block(E)
    for M in (B, adj(B)):
        st[(name, key(M))] = True


def marked(name, E):
    return (name, key(core_block(E))) in store()


def inverse(E):
    st = store()
    k = ("inv", key(E))
    if k in st:
        return st[k]
    B = core_block(E)
    if len(B) < len(E):
        m = len(E) - len(B)
        N = ident(len(E))
        for i, row in enumerate(inverse(B)):
            N[m + i][m:] = row
        st[k] = N
        return N
    A = adj(E)
    if unitary(E):
        st[k] = A
        return A
    arg = st.get(("expof", key(E)))
    if arg is not None:
        N = sym_exp([[(p_neg(r), p_neg(i)) for r, i in row] for row in arg])
        must_equal(mmul(N, E), ident(len(E)))
        must_equal(mmul(E, N), ident(len(E)))
        st[k] = N
        st[("inv", key(N))] = E
        return N
    ka = ("inv", key(A))
    if ka in st:
        st[k] = adj(st[ka])
        return st[k]
    if not marked("invertible", E) and is_zero(det(E)):
        raise NonInvertibleMatrixError("Matrix det == 0; not invertible.")
    N = fresh("inv", E, np.linalg.inv)
    mark("invertible", N)
    must_equal(mmul(N, E), ident(len(E)))
    must_equal(mmul(E, N), ident(len(E)))
    st[k] = N
    st[("inv", key(N))] = E
    return N


def ipow(E, n):
    out = ident(len(E))
    for _ in range(n):
        out = mmul(out, E)
    if n > 1 and unitary(E):
        mark("unitary", out)
    if n > 1 and marked("invertible", E):
        mark("invertible", out)
    return out


def minus_one(E):
    """-1 is an eigenvalue of E (never one of a principal root)"""
    if marked("root", E) or marked("positive", E):
        return False
    n = len(E)
    I = ident(n)
    d = det([[(p_add(E[i][j][0], I[i][j][0]), E[i][j][1]) for j in range(n)] for i in range(n)])
    z = core.to_bool(core.b_and(*[core.rel("eq", p) if p else core.TRUE for p in d]))
    if z.const() is not None:
        return z.const()
    core.assume(core.b_not(z))  # stated limit: isolated parameter values are left out
    return False


def root(E, q):
    """E ** (1/q)"""
    import scipy.linalg as sl

    st = store()
    k = ("root", q, key(E))
    if k in st:
        return st[k]
    ka = ("root", q, key(adj(E)))
    if ka in st:
        if not minus_one(E):
            st[k] = adj(st[ka])
            return st[k]
    u = unitary(E)
    R = fresh(f"root{q}_", E, lambda M: sl.fractional_matrix_power(M, 1.0 / q), marked("positive", E))
    if marked("positive", E):
        mark("positive", R)
    must_equal(ipow(R, q), E)
    if u:
        mark("unitary", R)
    if marked("invertible", E):
        mark("invertible", R)
    mark("root", R)
    st[k] = R
    return R


def sym_exp(E):
    import scipy.linalg as sl

    st = store()
    k = ("exp", key(E))
    if k in st:
        return st[k]
    ka = ("exp", key(adj(E)))
    if ka in st:
        st[k] = adj(st[ka])
    else:
        h = key(adj(E)) == key(E)
        st[k] = fresh("exp", E, sl.expm, h)
        if h:
            mark("positive", st[k])
    mark("invertible", st[k])
    st[("expof", key(st[k]))] = E
    return st[k]


def __pow__(self, p):
    if not symp.has_numatom(self) or self.rows != self.cols:
        return REAL_POW(self, p)
    if isinstance(p, sympy.Basic):
        if not p.is_number:
            raise Unsupported("symbolic exponent")
        p = int(p) if p.is_integer else float(p)
    if isinstance(p, core.Sym):
        raise Unsupported("symbolic exponent")
    E = entries(self)
    if float(p) == int(p):
        n = int(p)
        return to_matrix(ipow(E if n >= 0 else inverse(E), abs(n)))
    f = Fraction(float(p)).limit_denominator(16)
    if abs(float(f) - float(p)) > 1e-12:
        raise Unsupported(f"matrix power {p}")
    R = root(E if f > 0 else inverse(E), f.denominator)
    return to_matrix(ipow(R, abs(f.numerator)))


def pow_(self, p, method=None):
    if not symp.has_numatom(self):
        return REAL_POW2(self, p, method)
    return __pow__(self, p)


def exp(self):
    if not symp.has_numatom(self):
        if all(not symp.has_free(x) for x in self) and self.rows == self.cols:
            import scipy.linalg as sl

            return sympy.Matrix(sl.expm(np.array(self.evalf().tolist(), dtype=complex)).tolist())
        return REAL_EXP(self)
    return to_matrix(sym_exp(entries(self)))


def inv(self, *a, **k):
    if not symp.has_numatom(self):
        return REAL_INV(self, *a, **k)
    return to_matrix(inverse(entries(self)))


def register():
    MatrixArithmetic.__pow__ = __pow__
    MatrixArithmetic.pow = pow_
    MatrixBase.exp = exp
    MatrixBase.inv = inv
