"""A model of the parts of scipy.sparse the repository uses, over symbolic entries.
Storage order follows scipy: csc is column-major, coo keeps the given order,
`nonzero` of csc is sorted by row and drops explicit zeros, `csc(coo)` sums
duplicates."""
import types

import numpy as np
import scipy
import scipy.sparse
import scipy.sparse.linalg

from . import arr, core, shims


def _isz(v):
    """v == 0, forking on symbolic values"""
    return not bool(v != 0)


class Sp:
    """format, shape, entries [(row, col, value)] in storage order"""

    def __init__(self, fmt, shape, ent):
        self.format, self.shape, self.ent = fmt, tuple(int(x) for x in shape), ent

    ndim = 2
    dtype = np.dtype(complex)

    @staticmethod
    def of(x):
        if isinstance(x, Sp):
            return x
        if scipy.sparse.issparse(x):
            c = x.tocoo()
            return Sp(x.format, x.shape, [(int(r), int(k), v) for r, k, v in zip(c.row, c.col, c.data)])
        a = np.atleast_2d(arr.sarray(x) if arr.contains_sym(x) else np.asarray(x))
        return Sp("coo", a.shape, [(i, j, a[i, j]) for i in range(a.shape[0]) for j in range(a.shape[1])
                                   if not _isz(a[i, j])])

    @property
    def nnz(self):
        return len(self.ent)

    @property
    def data(self):
        return arr.sarray([v for _, _, v in self.ent]) if self.ent else np.zeros(0)

    @property
    def row(self):
        return np.array([r for r, _, _ in self.ent], dtype=int)

    @property
    def col(self):
        return np.array([c for _, c, _ in self.ent], dtype=int)

    def _sorted(self, major):
        d = {}
        for r, c, v in self.ent:
            k = (c, r) if major == "c" else (r, c)
            d[k] = d[k] + v if k in d else v
        return [((k[1], k[0]) if major == "c" else k) + (d[k],) for k in sorted(d)]

    def asformat(self, fmt, copy=False):
        if fmt is None or fmt == self.format:
            return self
        if fmt in ("csc", "csr"):
            return Sp(fmt, self.shape, self._sorted("c" if fmt == "csc" else "r"))
        return Sp(fmt, self.shape, list(self.ent))

    def tocsc(self, copy=False):
        return self.asformat("csc")

    def tocsr(self, copy=False):
        return self.asformat("csr")

    def tocoo(self, copy=True):
        return self.asformat("coo")

    def copy(self):
        return Sp(self.format, self.shape, list(self.ent))

    def nonzero(self):
        nz = [(r, c) for r, c, v in self.ent if not _isz(v)]
        if self.format == "csc":
            nz.sort(key=lambda t: t[0])
        return np.array([r for r, _ in nz], dtype=int), np.array([c for _, c in nz], dtype=int)

    def eliminate_zeros(self):
        self.ent = [e for e in self.ent if not _isz(e[2])]

    def sum_duplicates(self):
        self.ent = self._sorted("c" if self.format == "csc" else "r")

    def _map(self, f):
        return Sp(self.format, self.shape, [(r, c, f(v)) for r, c, v in self.ent])

    def conjugate(self, copy=True):
        return self._map(lambda v: v.conjugate())

    conj = conjugate

    def transpose(self, axes=None, copy=False):
        fmt = {"csc": "csr", "csr": "csc"}.get(self.format, self.format)
        return Sp(fmt, self.shape[::-1], [(c, r, v) for r, c, v in self.ent])

    @property
    def T(self):
        return self.transpose()

    def getH(self):
        return self.transpose().conj()

    @property
    def H(self):
        return self.getH()

    def toarray(self, *a, **k):
        out = arr.sarray(np.zeros(self.shape, dtype=complex))
        for r, c, v in self.ent:
            out[r, c] = out[r, c] + v
        return out

    todense = toarray
    A = property(toarray)

    def __neg__(self):
        return self._map(lambda v: -v)

    def __abs__(self):
        return self._map(abs)

    def _lin(self, o, s):
        o = Sp.of(o) if not isinstance(o, Sp) else o
        if o.shape != self.shape:
            raise ValueError("inconsistent shapes")
        r = Sp("coo", self.shape, self.ent + [(i, j, v if s > 0 else -v) for i, j, v in o.ent])
        r = r.asformat(self.format if self.format in ("csc", "csr") else "csr")
        r.eliminate_zeros()  # scipy's binary operations drop the zeros they produce
        return r

    def __add__(self, o):
        if not isinstance(o, Sp) and np.isscalar(o) and o == 0:
            return self.copy()
        return self._lin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1)

    def _matvec(self, v):
        if v.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        rest = v.shape[1:]
        out = arr.sarray(np.zeros((self.shape[0],) + rest, dtype=complex))
        for r, c, x in self.ent:
            if rest:
                for k in range(rest[0]):
                    out[r, k] = out[r, k] + x * v[c, k]
            else:
                out[r] = out[r] + x * v[c]
        return out

    def __matmul__(self, o):
        if scipy.sparse.issparse(o):
            o = Sp.of(o)
        if isinstance(o, Sp):
            ent = {}
            for r, k, v in self.ent:
                for k2, c, w in o.ent:
                    if k == k2:
                        ent[(r, c)] = ent[(r, c)] + v * w if (r, c) in ent else v * w
            s = Sp("coo", (self.shape[0], o.shape[1]), [k + (v,) for k, v in ent.items()])
            return s.asformat(self.format if self.format in ("csc", "csr") else "csr")
        if isinstance(o, np.ndarray) and o.ndim:
            return self._matvec(o)
        raise ValueError("scalar operands are not allowed")

    def __mul__(self, o):
        if isinstance(o, Sp) or scipy.sparse.issparse(o) or (isinstance(o, np.ndarray) and o.ndim):
            return self @ o
        return self._map(lambda v: v * o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return self.__rmatmul__(o)
        return self._map(lambda v: o * v)

    def __rmatmul__(self, o):
        t = self.transpose()._matvec(o.T if o.ndim > 1 else o)
        return t.T if o.ndim > 1 else t

    def dot(self, o):
        return self * o

    def multiply(self, o):
        return self._map(lambda v: v * o)

    def __truediv__(self, o):
        return self._map(lambda v: v / o)

    def diagonal(self, k=0):
        out = arr.sarray(np.zeros(min(self.shape), dtype=complex))
        for r, c, v in self.ent:
            if r == c:
                out[r] = out[r] + v
        return out

    def trace(self, *a):
        s = 0
        for r, c, v in self.ent:
            if r == c:
                s = s + v
        return s

    __array_priority__ = 10.1
    __array_ufunc__ = None

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz()")


class _SpMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Sp) or isinstance(x, cls._real)


def _cls(fmt, real):
    def new(cls, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            vals, (rows, cols) = arg
            vals, rows, cols = list(vals), [int(r) for r in rows], [int(c) for c in cols]
            if not len(vals) == len(rows) == len(cols):
                raise ValueError("row, column, and data array must all be the same length")
            if shape is None:
                shape = (max(rows) + 1, max(cols) + 1)
            if any(r >= shape[0] or r < 0 for r in rows) or any(c >= shape[1] or c < 0 for c in cols):
                raise ValueError("index exceeds matrix dimension")
            s = Sp("coo", shape, list(zip(rows, cols, vals)))
        elif isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(x, (int, np.integer)) for x in arg):
            s = Sp("coo", arg, [])
        else:
            s = Sp.of(arg)
            s = Sp("coo", s.shape, list(s.ent))
        return s.asformat(fmt)

    return _SpMeta(fmt + "_matrix", (), {"__new__": new, "_real": real})


def kron(A, B, format=None):
    A, B = Sp.of(A), Sp.of(B)
    shape = (A.shape[0] * B.shape[0], A.shape[1] * B.shape[1])
    ent = [(r * B.shape[0] + i, c * B.shape[1] + j, v * w) for r, c, v in A.ent for i, j, w in B.ent]
    return Sp("coo", shape, ent).asformat(format)


def identity(n, dtype="d", format=None):
    return Sp("coo", (n, n), [(i, i, 1.0) for i in range(n)]).asformat(format or "csr")


def eye(m, n=None, k=0, dtype=float, format=None):
    return identity(m, format=format)


def issparse(x):
    return isinstance(x, Sp) or scipy.sparse.issparse(x)


MODEL = types.ModuleType("scipy.sparse")
SPM = _SpMeta("spmatrix", (), {"_real": scipy.sparse.spmatrix})
MODEL.__dict__.update(kron=kron, identity=identity, eye=eye, issparse=issparse, isspmatrix=issparse, spmatrix=SPM,
                      linalg=scipy.sparse.linalg)
for _f in ("coo", "csc", "csr"):
    MODEL.__dict__[_f + "_matrix"] = _cls(_f, getattr(scipy.sparse, _f + "_matrix"))
    if hasattr(scipy.sparse, _f + "_array"):
        MODEL.__dict__[_f + "_array"] = MODEL.__dict__[_f + "_matrix"]

SCIPY = shims.Facade(scipy, {"sparse": MODEL})


def register():
    shims.EXTRA[id(scipy)] = SCIPY
    shims.EXTRA[id(scipy.sparse)] = MODEL
    for n in ("kron", "identity", "eye", "issparse", "isspmatrix", "spmatrix", "coo_matrix", "csc_matrix", "csr_matrix"):
        shims.EXTRA[id(getattr(scipy.sparse, n))] = getattr(MODEL, n)
