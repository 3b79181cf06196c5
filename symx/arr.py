"""numpy object arrays of symbolic values and a numpy facade for the real code."""
import math

import numpy as np
import sympy

from . import core, symp
from .core import Cx, INum, Num, SBool, Sym, Unsupported, b_and, b_or, lift, to_bool


_real_dtype = np.ndarray.dtype.__get__
_KEEP_COMPLEX = {"add", "subtract", "multiply", "divide", "true_divide", "negative", "positive", "conjugate", "exp", "power",
                 "square", "sqrt", "matmul", "sin", "cos", "log", "reciprocal"}


def _infer_dtype(a):
    """dtype the array would have if its symbolic entries were machine numbers"""
    k = 0
    for v in a.view(np.ndarray).reshape(-1):
        if isinstance(v, (Cx, complex, np.complexfloating)):
            k = max(k, 4)
        elif isinstance(v, (SBool, bool, np.bool_)):
            k = max(k, 1)
        elif isinstance(v, (INum, int, np.integer)):
            k = max(k, 2)
        elif isinstance(v, (Num, float, np.floating)):
            k = max(k, 3)
        else:
            return np.dtype(object)
    return np.dtype([object, bool, np.int64, np.float64, np.complex128][k])


class SArr(np.ndarray):
    """Object ndarray with the numeric behaviour of a complex/float array."""

    def __new__(cls, shape):
        o = np.ndarray.__new__(cls, shape, dtype=object)
        return o

    def __array_finalize__(self, obj):
        d = getattr(obj, "__dict__", None)
        if d and "_np_dtype" in d:
            self.__dict__["_np_dtype"] = d["_np_dtype"]

    @property
    def dtype(self):
        d = self.__dict__.get("_np_dtype")
        return _infer_dtype(self) if d is None else d

    @property
    def real(self):
        return vmap(lambda v: lift(v).real, self)

    @real.setter
    def real(self, v):
        raise Unsupported("assignment to .real")

    @property
    def imag(self):
        return vmap(lambda v: lift(v).imag, self)

    @imag.setter
    def imag(self, v):
        raise Unsupported("assignment to .imag")

    def conj(self):
        return vmap(lambda v: v.conjugate(), self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_impl(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func)
        if f is not None:
            return f(*args, **kwargs)
        args = tuple(map(_plain, args))
        kwargs = {k: _plain(v) for k, v in kwargs.items()}
        out = func(*args, **kwargs)
        return wrap(out)

    def __bool__(self):
        if self.size == 1:
            return bool(to_bool(self.reshape(-1)[0]))
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous. "
            "Use a.any() or a.all()")

    def all(self, axis=None, *a, **k):
        return np_all(self, axis, *a, **k)

    def any(self, axis=None, *a, **k):
        return np_any(self, axis, *a, **k)

    def sum(self, axis=None, *a, **k):
        return np_sum(self, axis, *a, **k)

    def mean(self, axis=None, *a, **k):
        return np_mean(self, axis, *a, **k)

    def prod(self, axis=None, *a, **k):
        return np_prod(self, axis, *a, **k)

    def var(self, axis=None, *a, **k):
        return np_var(self, axis, *a, **k)

    def std(self, axis=None, *a, **k):
        return np_std(self, axis, *a, **k)

    def ptp(self, axis=None, **k):
        return np_ptp(self, axis, **k)

    def dot(self, o):
        return wrap(np.dot(_plain(self), _plain(o)))

    def tobytes(self, *a, **k):
        return np.array([int(v) for v in self.reshape(-1)]).astype(getattr(self, "_np_dtype", float)).tobytes()

    def max(self, axis=None, *a, **k):
        return amax(self, axis, *a, **k)

    def min(self, axis=None, *a, **k):
        return amin(self, axis, *a, **k)

    def argsort(self, *a, **k):
        return argsort(self)

    def round(self, nd=0):
        return vmap(lambda v: round(v, nd), self)

    def __getitem__(self, k):
        return npscalar(np.ndarray.__getitem__(self, _index(k)))

    def __setitem__(self, k, v):
        d = self.__dict__.get("_np_dtype")
        if d is not None and narrow(d) is not None:
            v = cast(v if isinstance(v, SArr) else sarray(v), d) if isinstance(v, (np.ndarray, list, tuple)) else fit(cast_scalar(v, d.kind), d)
        elif d is not None and d.kind in "cf":
            if isinstance(v, (sympy.Basic, Sym)) or (isinstance(v, (complex, np.complexfloating)) and d.kind == "f"):
                v = cast_scalar(lift(v) if isinstance(v, complex) else v, d.kind)
            elif isinstance(v, np.ndarray) and _real_dtype(v) == object:
                v = vmap(lambda e: cast_scalar(lift(e).real if d.kind == "f" and isinstance(e, (Cx, complex)) else e, d.kind), v)
        np.ndarray.__setitem__(self, _index(k), _plain(v))

    def __reduce__(self):
        raise Unsupported("pickle array")

    def __deepcopy__(self, memo):
        return wrap(np.array(_plain(self), dtype=object, copy=True))


def _index(k):
    if isinstance(k, INum):
        return int(k)
    if isinstance(k, tuple):
        return tuple(_index(x) for x in k)
    if isinstance(k, SArr):
        return np.array([int(v) if not isinstance(v, SBool) else bool(v) for v in k.reshape(-1)]).reshape(k.shape)
    return k


def _plain(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if type(x) in (list, tuple):
        return type(x)(_plain(v) for v in x)
    return x


def wrap(x):
    if isinstance(x, np.ndarray) and _real_dtype(x) == object and not isinstance(x, SArr):
        return x.view(SArr)
    if type(x) in (list, tuple):
        return type(x)(wrap(v) for v in x)
    return x


def vmap(f, a):
    a = np.asarray(_plain(a))
    out = SArr(a.shape)
    o = out.view(np.ndarray)
    if a.ndim == 0:
        o[()] = f(a[()])
        return o[()]
    for i in np.ndindex(a.shape):
        o[i] = f(a[i])
    return out


def elementwise(f, a):
    return vmap(f, a)


def vsum(a, axis=None):
    r = None
    for v in np.asarray(_plain(a), dtype=object).reshape(-1):
        r = v if r is None else r + v
    return np.float64(0.0) if r is None else npscalar(r)


def npscalar(v):
    """numpy hands out numpy scalars, not Python numbers"""
    t = type(v)
    if t is float:
        return np.float64(v)
    if t is complex:
        return np.complex128(v)
    return v


UNARY = {
    "exp": lambda v: lift(v).exp(), "sqrt": lambda v: lift(v).sqrt(), "cos": lambda v: lift(v).cos(),
    "sin": lambda v: lift(v).sin(), "log": lambda v: lift(v).log(), "log2": lambda v: lift(v).log2(),
    "conjugate": lambda v: lift(v).conjugate(), "absolute": lambda v: abs(v), "fabs": lambda v: abs(v),
    "negative": lambda v: -v, "positive": lambda v: v, "square": lambda v: v * v, "floor": lambda v: lift(v).floor(),
    "ceil": lambda v: lift(v).ceil(), "rint": lambda v: lift(v).rint(), "logical_not": lambda v: ~to_bool(v),
    "invert": lambda v: ~v, "isnan": lambda v: False, "isfinite": lambda v: True, "isinf": lambda v: False,
    "reciprocal": lambda v: 1 / lift(v), "trunc": lambda v: core.trunc_sym(lift(v)),
    "sign": lambda v: sgn(v), "tan": lambda v: lift(v).tan(),
    "log10": lambda v: lift(v).log() / lift(math.log(10)), "log1p": lambda v: (1 + lift(v)).log(), "expm1": lambda v: lift(v).exp() - 1,
    "deg2rad": lambda v: lift(v) * math.pi / 180, "radians": lambda v: lift(v) * math.pi / 180,
    "rad2deg": lambda v: lift(v) * 180 / math.pi, "degrees": lambda v: lift(v) * 180 / math.pi,
    "cosh": lambda v: (lift(v).exp() + (-lift(v)).exp()) / 2, "sinh": lambda v: (lift(v).exp() - (-lift(v)).exp()) / 2,
}


def sgn(v):
    v = lift(v)
    if bool(v > 0):
        return lift(1)
    return lift(-1) if bool(v < 0) else lift(0)


BINARY = {
    "equal": lambda a, b: _eq(a, b), "not_equal": lambda a, b: ~to_bool(_eq(a, b)),
    "logical_and": lambda a, b: to_bool(a) & to_bool(b), "logical_or": lambda a, b: to_bool(a) | to_bool(b),
    "maximum": lambda a, b: a if bool(a >= b) else b, "minimum": lambda a, b: a if bool(a <= b) else b,
    "hypot": lambda a, b: (lift(a) * a + lift(b) * b).sqrt(), "float_power": lambda a, b: lift(a) ** b,
    "logical_xor": lambda a, b: (to_bool(a) & ~to_bool(b)) | (~to_bool(a) & to_bool(b)),
    "fmax": lambda a, b: a if bool(lift(a) >= b) else b, "fmin": lambda a, b: a if bool(lift(a) <= b) else b,
    "heaviside": lambda a, b: 1.0 if bool(lift(a) > 0) else 0.0 if bool(lift(a) < 0) else b,
}


def _eq(a, b):
    a, b = lift(a), lift(b)
    return core.eq_op(a, b)


_KEEP_NARROW = {"add", "subtract", "multiply", "negative", "absolute", "power", "floor_divide", "remainder", "left_shift"}


def ufunc_impl(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop("out", None)
    for k in ("dtype", "casting", "where"):
        if k in kwargs and (k != "where" or kwargs[k] is not True):
            if k != "where":
                kwargs.pop(k)
            else:
                raise Unsupported("ufunc where=")
    plain = [_plain(x) for x in inputs]
    if method == "__call__" and name in UNARY and len(plain) == 1:
        r = vmap(UNARY[name], plain[0])
    elif method == "__call__" and name in BINARY:
        a, b = np.broadcast_arrays(np.asarray(plain[0], dtype=object), np.asarray(plain[1], dtype=object))
        r = SArr(a.shape)
        ro = r.view(np.ndarray)
        for i in np.ndindex(a.shape):
            ro[i] = BINARY[name](a[i], b[i])
    else:
        plain = [np.asarray(x, dtype=object) if isinstance(x, np.ndarray) else _boxed(x) for x in plain]
        r = wrap(getattr(ufunc, method)(*plain, **kwargs))
    if name in _KEEP_COMPLEX and isinstance(r, SArr) and any(
            isinstance(x, SArr) and getattr(x.__dict__.get("_np_dtype"), "kind", "") == "c"
            or isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype.kind == "c" for x in inputs):
        r.__dict__["_np_dtype"] = np.dtype(complex)
    if method == "__call__" and name in _KEEP_NARROW and isinstance(r, SArr):
        ds = [x.__dict__.get("_np_dtype") if isinstance(x, SArr) else x.dtype for x in inputs if isinstance(x, np.ndarray) and x.ndim]
        if ds and all(d is not None for d in ds) and narrow(np.result_type(*ds)) is not None:
            d = narrow(np.result_type(*ds))
            r = fit_all(r, d)
            r.__dict__["_np_dtype"] = d
    if out is not None:
        tgt = out[0]
        if isinstance(tgt, SArr):
            if narrow(tgt.__dict__.get("_np_dtype")) is not None:
                r = fit_all(r, tgt.__dict__["_np_dtype"])
            np.ndarray.__setitem__(tgt, Ellipsis, _plain(r))
            return tgt
        if isinstance(r, np.ndarray) and any(isinstance(v, (Sym, SBool)) for v in r.reshape(-1)):
            raise Unsupported("in-place store of symbolic values into a numeric array")
        tgt[...] = np.asarray(_plain(r), dtype=tgt.dtype)
        return tgt
    return r


def _boxed(x):
    if isinstance(x, Sym):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    return x


# --------------------------------------------------------------------------
def contains_sym(x, depth=0):
    if isinstance(x, (Sym, SBool)):
        return True
    if isinstance(x, np.ndarray):
        return _real_dtype(x) == object and any(contains_sym(v) for v in x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(contains_sym(v, depth + 1) for v in x)
    if isinstance(x, (sympy.MatrixBase, sympy.Basic)):
        return symp.has_numatom(x)
    return False


def _deep(x):
    """nested sequences/matrices -> nested lists of scalars"""
    if isinstance(x, sympy.MatrixBase):
        return [[x[i, j] for j in range(x.shape[1])] for i in range(x.shape[0])]
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray).tolist() if _real_dtype(x) != object else _tolist(x.view(np.ndarray))
    if isinstance(x, (list, tuple)):
        return [_deep(v) for v in x]
    return x


def _tolist(a):
    if a.ndim == 0:
        return a[()]
    return [_tolist(a[i]) if a.ndim > 1 else a[i] for i in range(a.shape[0])]


def _shape(x):
    if isinstance(x, list):
        if not x:
            return (0,)
        s = [_shape(v) for v in x]
        if any(t != s[0] for t in s):
            raise ValueError("setting an array element with a sequence.")
        return (len(x),) + s[0]
    return ()


def sarray(x):
    d = _deep(x)
    sh = _shape(d)
    out = SArr(sh)
    o = out.view(np.ndarray)
    if sh == ():
        o[()] = d
        return out
    for i in np.ndindex(sh):
        v = d
        for k in i:
            v = v[k]
        o[i] = v
    return out


def kind_of(dtype):
    from . import shims

    if dtype is None:
        return None
    dtype = shims.real_type(dtype)
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return "O"


def cast_scalar(v, kind):
    if isinstance(v, SBool):
        return v if kind in ("b", "O") else lift(v)
    if isinstance(v, sympy.Basic):
        if symp.has_free(v):
            if kind == "c":
                raise TypeError("Cannot convert expression to float")
            raise TypeError("Cannot convert expression to float")
        if kind == "c":
            return symp.encode_complex(v)
        if kind in "fiu":
            return symp.encode_float(v)
        return v
    if isinstance(v, Sym):
        if kind == "f":
            if isinstance(v, Cx):
                if v.im:
                    raise TypeError("can't convert complex to float")
                return Num(v.re)
            return Num(v.p)
        if kind in "iu":
            if isinstance(v, Cx):
                raise TypeError("can't convert complex to int")
            return core.trunc_sym(v)
        if kind == "b":
            return to_bool(v)
        return v
    if kind == "c":
        return complex(v)
    if kind == "f":
        return float(v)
    if kind in "iu":
        return int(v)
    return v


def narrow(dtype):
    """the numpy dtype if it holds less than 64-bit integers or doubles, else None"""
    from . import shims

    if dtype is None:
        return None
    try:
        d = np.dtype(shims.real_type(dtype))
    except TypeError:
        return None
    return d if d.kind in "iuf" and d.itemsize < 8 or d.kind == "c" and d.itemsize < 16 else None


def fit(v, d):
    """v stored with the narrow dtype d: integers wrap around, floats are rounded"""
    if isinstance(v, SBool):
        v = lift(v)
    if not isinstance(v, Sym):
        if isinstance(v, sympy.Basic):
            raise Unsupported(f"symbolic value stored as {d}")
        return np.array(v).astype(d)[()].item()
    if d.kind not in "iu":
        ps = [core.p_const(q) for q in ((v.re, v.im) if isinstance(v, Cx) else (v.p, {}))]
        c = None if None in ps else complex(*[float(q) for q in ps]) if isinstance(v, Cx) else float(ps[0])
        if c is None:
            raise Unsupported(f"symbolic value stored as {d}")
        return np.array(c).astype(d)[()].item()
    info = np.iinfo(d)
    if bool(v < int(info.min)) or bool(v > int(info.max)):
        return (v - int(info.min)) % (2 ** (8 * d.itemsize)) + int(info.min)
    return v


def fit_all(x, d):
    return vmap(lambda v: fit(v, d), x) if isinstance(x, np.ndarray) else fit(x, d)


def cast(x, dtype):
    d = narrow(dtype)
    if d is None:
        return cast_wide(x, dtype)
    r = fit_all(cast_wide(x, {"f": float, "c": complex}.get(d.kind, int)), d)
    if isinstance(r, SArr):
        r.__dict__["_np_dtype"] = d
    return r


def cast_wide(x, dtype):
    k = kind_of(dtype)
    if k is None or k == "O":
        return wrap(np.array(_plain(x), dtype=object, copy=True))
    if isinstance(x, np.ndarray) and not any(
            isinstance(v, (Sym, SBool, sympy.Basic)) for v in x.reshape(-1)):
        from . import shims

        r = np.array(_plain(x).tolist(), dtype=shims.real_type(dtype))
        return r.reshape(x.shape)
    r = vmap(lambda v: cast_scalar(v, k), x)
    if isinstance(r, SArr):
        try:
            r.__dict__["_np_dtype"] = np.dtype(dtype)
        except TypeError:
            pass
    return r


def np_array(x, dtype=None, copy=True, ndmin=0, **kw):
    from . import shims

    if isinstance(x, (map, filter)) or (hasattr(x, "__next__")):
        raise Unsupported("np.array(iterator)")
    if contains_sym(x):
        k = kind_of(dtype)
        if isinstance(x, SArr) and not copy:
            return np_asarray(x, dtype)
        a = sarray(x) if not isinstance(x, SArr) else wrap(np.array(_plain(x), copy=True))
        if k is None:
            # numpy would upcast; python/sympy numbers stay as they are
            return vmap(lambda v: symp.encode(v) if isinstance(v, sympy.Basic) and not symp.has_free(v) else v, a) \
                if a.ndim else a
        return cast(a, dtype)
    if isinstance(x, SArr):
        x = _plain(x)
    r = np.array(x, dtype=shims.real_type(dtype), copy=copy, ndmin=ndmin, **kw)
    return r


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, SArr):
        k = kind_of(dtype)
        if k in (None, "O") or (k == "c" and x.dtype.kind == "c"):
            return x
        return cast(x, dtype)
    if isinstance(x, np.ndarray) and not contains_sym(x):
        from . import shims

        return np.asarray(x, dtype=shims.real_type(dtype), **kw)
    return np_array(x, dtype=dtype)


def np_fromiter(it, dtype=None, count=-1, **kw):
    from . import shims

    xs = list(it)
    if contains_sym(xs):
        return cast(sarray(xs), dtype)
    return np.fromiter(xs, shims.real_type(dtype), count)


def _creator(f):
    """np.zeros/ones/empty: an object array ready to receive symbolic values."""

    def g(shape, dtype=float, *a, **k):
        from . import shims

        if isinstance(shape, INum):
            shape = int(shape)
        elif isinstance(shape, (tuple, list)):
            shape = tuple(int(s) for s in shape)
        base = f(shape, shims.real_type(dtype), *a, **k) if f is not np.empty else np.zeros(shape, shims.real_type(dtype))
        if base.dtype.kind in "cfiu" and core.CTX is not None and getattr(core.CTX, "sym_zeros", True):
            r = wrap(base.astype(object))
            if isinstance(r, SArr):
                r.__dict__["_np_dtype"] = base.dtype
            return r
        return base

    return g


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not contains_sym(a) and not contains_sym(b) and not _objarr(a) and not _objarr(b):
        return np.isclose(_plain(a), _plain(b), rtol=rtol, atol=atol, equal_nan=equal_nan)
    A, B = _npobj(a), _npobj(b)
    if A.ndim == 0 and B.ndim == 0:
        return core.isclose(_num(A[()]), _num(B[()]), rtol, atol)
    A, B = np.broadcast_arrays(A, B)
    out = SArr(A.shape)
    o = out.view(np.ndarray)
    for i in np.ndindex(A.shape):
        o[i] = core.isclose(_num(A[i]), _num(B[i]), rtol, atol)
    return out


def _num(v):
    if isinstance(v, sympy.Basic) and symp.has_free(v):
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    return v


def _objarr(a):
    return isinstance(a, np.ndarray) and _real_dtype(a) == object


def _npobj(a):
    if isinstance(a, np.ndarray):
        return np.asarray(_plain(a), dtype=object)
    if isinstance(a, (list, tuple, sympy.MatrixBase)):
        return _plain(sarray(a))
    o = np.empty((), dtype=object)
    o[()] = a
    return o


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = np_isclose(a, b, rtol, atol, equal_nan)
    if isinstance(r, SBool):
        return r
    if isinstance(r, SArr):
        return r.all()
    return bool(np.all(r))


def np_array_equal(a, b, **kw):
    if not (contains_sym(a) or contains_sym(b) or _objarr(a) or _objarr(b)):
        return np.array_equal(_plain(a), _plain(b), **kw)
    A, B = _npobj(a), _npobj(b)
    if A.shape != B.shape:
        return False
    return b_and(*[to_bool(_eq(x, y)) for x, y in zip(A.reshape(-1), B.reshape(-1))])


def along(f, a, axis=None, keepdims=False, **k):
    """apply f, which maps a flat list to one value, along an axis (all of the array without one)"""
    _only(k, "dtype", "out", "initial")
    A = _npobj(a)
    if axis is None:
        r = f(list(A.reshape(-1)))
        if keepdims:
            o = np.empty((1,) * A.ndim, dtype=object)
            o[...] = r
            return wrap(o)
        return r
    axes = tuple(x % A.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [x for x in range(A.ndim) if x not in axes]
    B = np.transpose(A, rest + list(axes)).reshape([A.shape[x] for x in rest] + [-1])
    out = np.empty([A.shape[x] for x in rest], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(list(B[i]))
    if keepdims:
        out = out.reshape([1 if x in axes else n for x, n in enumerate(A.shape)])
    return wrap(out) if out.ndim else out[()]


def _only(k, *names):
    for n, v in k.items():
        if v is not None and n not in names or n == "out" and v is not None or n == "initial":
            raise Unsupported(f"array keyword {n}")


def _best(better, what):
    def f(xs):
        if not xs:
            raise ValueError(f"zero-size array to reduction operation {what} which has no identity")
        r = xs[0]
        for v in xs[1:]:
            if bool(better(lift(v), r)):
                r = v
        return r

    return f


def amax(a, axis=None, **k):
    return along(_best(lambda v, r: v > r, "maximum"), a, axis, **k)


def amin(a, axis=None, **k):
    return along(_best(lambda v, r: v < r, "minimum"), a, axis, **k)


def np_ptp(a, axis=None, **k):
    return amax(a, axis, **k) - amin(a, axis, **k)


def np_var(a, axis=None, dtype=None, out=None, ddof=0, **k):
    def f(xs):
        m = vsum(sarray(xs)) / len(xs)
        return vsum(sarray([abs(lift(x) - m) * abs(lift(x) - m) for x in xs])) / (len(xs) - ddof)

    return along(f, a, axis, **k)


def np_std(a, axis=None, dtype=None, out=None, ddof=0, **k):
    v = np_var(a, axis, ddof=ddof, **k)
    return vmap(lambda x: lift(x).sqrt(), v) if isinstance(v, np.ndarray) else lift(v).sqrt()


def argsort(a, axis=-1, *args, **k):
    if not contains_sym(a):
        return np.argsort(np.asarray(_plain(a), dtype=float) if _objarr(a) else a, axis, *args, **k)
    vals = list(_npobj(a).reshape(-1))
    if _npobj(a).ndim > 1:
        raise Unsupported("argsort of a matrix")
    import functools

    def c(i, j):
        if bool(lift(vals[i]) < vals[j]):
            return -1
        if bool(lift(vals[j]) < vals[i]):
            return 1
        return i - j

    return np.array(sorted(range(len(vals)), key=functools.cmp_to_key(c)), dtype=int)


def _argbest(better):
    def f(vals):
        b = 0
        for i in range(1, len(vals)):
            if bool(better(lift(vals[i]), vals[b])):
                b = i
        return b

    return f


def argmax(a, axis=None, **k):
    return along(_argbest(lambda v, r: v > r), a, axis, **k)


def argmin(a, axis=None, **k):
    return along(_argbest(lambda v, r: v < r), a, axis, **k)


def np_vdot(a, b):
    return vsum(vmap(lambda v: lift(v).conjugate(), np.asarray(_plain(a), dtype=object).reshape(-1))
                * np.asarray(_plain(b), dtype=object).reshape(-1).view(SArr))


def np_norm(a, ord=None, axis=None, keepdims=False):
    nd = _npobj(a).ndim
    if isinstance(axis, tuple) and len(axis) == 2 or axis is None and nd == 2:
        if ord not in (None, "fro"):
            raise Unsupported(f"matrix norm {ord}")
        ord = None
    if ord is None or ord == 2:
        def f(xs):
            return vsum(vmap(lambda v: lift(v).real * lift(v).real + lift(v).imag * lift(v).imag if isinstance(lift(v), Cx) else lift(v) * v, sarray(xs))).sqrt()
    elif ord == 1:
        def f(xs):
            return vsum(sarray([abs(lift(x)) for x in xs]))
    elif ord == np.inf:
        def f(xs):
            return _best(lambda v, r: v > r, "maximum")([abs(lift(x)) for x in xs])
    else:
        raise Unsupported(f"norm of order {ord}")
    return along(f, a, axis, keepdims)


def np_real(a):
    if isinstance(a, Sym):
        return a.real
    if _objarr(a):
        return wrap(a).real
    if contains_sym(a):
        return sarray(a).real
    return np.real(_plain(a))


def np_real_if_close(a, tol=100):
    if not contains_sym(a) and not _objarr(a):
        return np.real_if_close(_plain(a), tol)
    A = a if isinstance(a, SArr) else sarray(a)
    bound = tol * 2.0**-52 if tol > 1 else tol
    parts = [lift(v) for v in _npobj(A).reshape(-1)]
    if all(bool(abs(v.imag) < bound) for v in parts if isinstance(v, (Cx, complex))):
        return A.real
    return A


def np_imag(a):
    if isinstance(a, Sym):
        return a.imag
    if _objarr(a):
        return wrap(a).imag
    if contains_sym(a):
        return sarray(a).imag
    return np.imag(_plain(a))


class UFunc:
    """callable standing for a numpy ufunc, with its methods"""

    def __init__(self, name, f):
        self.__name__, self.f, self.u = name, f, getattr(np, name)

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __getattr__(self, n):
        return getattr(self.u, n)

    def _args(self, xs):
        return [sarray(x) if isinstance(x, (list, tuple)) and contains_sym(x) else wrap(_npobj(x)) if isinstance(x, Sym) else x for x in xs]

    def outer(self, a, b, **k):
        if not contains_sym([a, b]) and not _objarr(a) and not _objarr(b):
            return self.u.outer(a, b, **k)
        A, B = _npobj(a), _npobj(b)
        return self.f(wrap(A.reshape(A.shape + (1,) * B.ndim)), wrap(B.reshape((1,) * A.ndim + B.shape)))

    def _fold(self, xs, initial=None):
        if not xs and initial is None:
            return self.u.identity
        r = xs[0] if initial is None else initial
        for v in xs[1:] if initial is None else xs:
            r = BINARY[self.__name__](r, v) if self.__name__ in BINARY else self.f(r, v)
        return r

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if not contains_sym(a) and not _objarr(a):
            k = {} if initial is None else {"initial": initial}
            return self.u.reduce(a, axis=axis, dtype=dtype, out=out, keepdims=keepdims, where=where, **k)
        if where is not True or out is not None:
            raise Unsupported("ufunc.reduce keywords")
        return along(lambda xs: self._fold(xs, initial), a, axis, keepdims)

    def accumulate(self, a, axis=0, **k):
        if not contains_sym(a) and not _objarr(a):
            return self.u.accumulate(a, axis, **k)
        return wrap(self.u.accumulate(_npobj(a), axis))

    def at(self, a, indices, *b):
        if not isinstance(a, SArr):
            if contains_sym(list(b)):
                raise Unsupported("symbolic values put into a machine array")
            return self.u.at(a, indices, *b)
        self.u.at(a.view(np.ndarray), indices, *[_npobj(x) if not np.isscalar(x) else x for x in b])


def _sc(name):
    def f(x, *a, **k):
        if isinstance(x, Sym):
            return UNARY[name](x)
        if isinstance(x, (list, tuple)) and contains_sym(x):
            return vmap(UNARY[name], sarray(x))
        if isinstance(x, sympy.Basic) and symp.has_numatom(x) and not symp.has_free(x):
            return UNARY[name](symp.encode(x))
        return getattr(np, name)(x, *a, **k)

    return UFunc(name, f)


def _bin(name):
    u = getattr(np, name)

    def f(a, b, *args, **k):
        if isinstance(a, (Sym,)) or isinstance(b, Sym):
            if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
                A = sarray(a) if isinstance(a, (list, tuple)) else a
                B = sarray(b) if isinstance(b, (list, tuple)) else b
                return _PYOPS[name](A, B)
            return _PYOPS[name](a, b)
        if isinstance(a, (list, tuple)) and contains_sym(a):
            a = sarray(a)
        if isinstance(b, (list, tuple)) and contains_sym(b):
            b = sarray(b)
        return u(a, b, *args, **k)

    return UFunc(name, f)


_PYOPS = {
    "multiply": lambda a, b: a * b, "add": lambda a, b: a + b, "subtract": lambda a, b: a - b,
    "divide": lambda a, b: a / b, "true_divide": lambda a, b: a / b, "power": lambda a, b: a**b,
    "maximum": BINARY["maximum"], "minimum": BINARY["minimum"], "floor_divide": lambda a, b: a // b,
    "mod": lambda a, b: a % b, "remainder": lambda a, b: a % b, "float_power": lambda a, b: a**b,
    "greater": lambda a, b: lift(a) > b, "less": lambda a, b: lift(a) < b, "greater_equal": lambda a, b: lift(a) >= b,
    "less_equal": lambda a, b: lift(a) <= b, "equal": lambda a, b: BINARY["equal"](a, b), "not_equal": lambda a, b: BINARY["not_equal"](a, b),
    "logical_and": lambda a, b: BINARY["logical_and"](a, b), "logical_or": lambda a, b: BINARY["logical_or"](a, b),
    "logical_xor": lambda a, b: BINARY["logical_xor"](a, b), "hypot": lambda a, b: BINARY["hypot"](a, b),
    "fmax": lambda a, b: BINARY["maximum"](a, b), "fmin": lambda a, b: BINARY["minimum"](a, b),
}


def np_sum(a, axis=None, **k):
    if contains_sym(a) or _objarr(a):
        a = a if isinstance(a, np.ndarray) else sarray(a)
        if axis is None and not k.get("keepdims"):
            _only(k, "dtype")
            return vsum(a)
        return along(lambda xs: vsum(sarray(xs)), a, axis, **k)
    if hasattr(a, "__next__"):
        return sum(a)
    return np.sum(_plain(a), axis=axis, **k)


def np_iscomplexobj(a):
    if isinstance(a, Sym):
        return isinstance(a, Cx)
    if _objarr(a) or contains_sym(a):
        return any(isinstance(v, (Cx, complex)) for v in np.asarray(_plain(a), dtype=object).reshape(-1))
    return np.iscomplexobj(a)


def np_eye(n, *a, **k):
    from . import shims

    if "dtype" in k:
        k["dtype"] = shims.real_type(k["dtype"])
    return np.eye(int(n), *a, **k)


def np_frombuffer(*a, **k):
    from . import shims

    if "dtype" in k:
        k["dtype"] = shims.real_type(k["dtype"])
    return np.frombuffer(*a, **k)


def np_round(a, decimals=0, **k):
    if isinstance(a, Sym):
        return round(a, decimals)
    if contains_sym(a):
        return vmap(lambda v: round(lift(v), decimals), a if isinstance(a, np.ndarray) else sarray(a))
    return np.round(_plain(a), decimals, **k)


def np_all(a, axis=None, *x, **k):
    if isinstance(a, SBool):
        return a
    if _objarr(a) or contains_sym(a):
        return along(lambda xs: b_and(*[to_bool(v) for v in xs]), a, axis, **k)
    return np.all(a, axis, *x, **k)


def np_any(a, axis=None, *x, **k):
    if isinstance(a, SBool):
        return a
    if _objarr(a) or contains_sym(a):
        return along(lambda xs: b_or(*[to_bool(v) for v in xs]), a, axis, **k)
    return np.any(a, axis, *x, **k)


def np_concatenate(xs, *a, **k):
    xs = [x if isinstance(x, np.ndarray) else np_array(x) for x in xs]
    return wrap(np.concatenate([_plain(x) for x in xs], *a, **k))


def np_outer(a, b, out=None):
    return wrap(np.multiply.outer(_npobj(a).reshape(-1), _npobj(b).reshape(-1)))


def np_mean(a, axis=None, *x, **k):
    if contains_sym(a) or _objarr(a):
        return along(lambda xs: vsum(sarray(xs)) / len(xs), a, axis, **k)
    return np.mean(_plain(a), axis, *x, **k)


def np_prod(a, axis=None, *x, **k):
    if contains_sym(a) or _objarr(a):
        def f(xs):
            r = 1
            for v in xs:
                r = r * v
            return r

        return along(f, a, axis, **k)
    return np.prod(a, axis, *x, **k)


def np_where(c, *args):
    if isinstance(c, SBool) or _objarr(c) or contains_sym(c) or (args and (_objarr(args[0]) or _objarr(args[1]) or contains_sym(list(args)))):
        C = _npobj(c)
        if not args:
            return np.nonzero(np.array([bool(to_bool(v)) for v in C.reshape(-1)], dtype=bool).reshape(C.shape))
        C, A, B = np.broadcast_arrays(C, _npobj(args[0]), _npobj(args[1]))
        out = SArr(C.shape)
        o = out.view(np.ndarray)
        for i in np.ndindex(C.shape):
            o[i] = A[i] if bool(to_bool(C[i])) else B[i]
        return out
    return np.where(c, *args)


def np_iscomplex(a):
    if _objarr(a) or contains_sym(a):
        return vmap(lambda v: ~to_bool(_eq(lift(v).imag, 0)), a if isinstance(a, np.ndarray) else sarray(a))
    return np.iscomplex(a)


def np_isreal(a):
    if _objarr(a) or contains_sym(a):
        return vmap(lambda v: to_bool(_eq(lift(v).imag, 0)), a if isinstance(a, np.ndarray) else sarray(a))
    return np.isreal(a)


def np_bincount(x, weights=None, minlength=0):
    if weights is not None and (contains_sym(weights) or _objarr(weights)):
        xs, ws = [int(v) for v in _npobj(x)], list(_npobj(weights))
        out = [0.0] * max(max(xs, default=-1) + 1, minlength)
        for i, w in zip(xs, ws):
            out[i] = out[i] + w
        return sarray(out)
    return np.bincount([int(v) for v in _npobj(x)] if contains_sym(x) or _objarr(x) else x, weights, minlength)


def _as_matrix(a):
    a = wrap(_npobj(a))
    if a.ndim != 2:
        raise Unsupported("stacked matrices")
    return a


def la_det(a):
    A = [list(r) for r in _npobj(_as_matrix(a))]

    def det(M):
        if not M:
            return 1
        t = 0
        for j, v in enumerate(M[0]):
            if not _isz(v):
                t = t + (-1) ** j * v * det([r[:j] + r[j + 1:] for r in M[1:]])
        return t

    return det(A)


def la_inv(a):
    A = [list(r) for r in _npobj(_as_matrix(a))]
    n, d = len(A), la_det(a)
    if bool(to_bool(_eq(d, 0))):
        raise np.linalg.LinAlgError("Singular matrix")
    out = SArr((n, n))
    o = out.view(np.ndarray)
    for i in range(n):
        for j in range(n):
            o[j, i] = (-1) ** (i + j) * la_det([r[:j] + r[j + 1:] for k, r in enumerate(A) if k != i] or np.empty((0, 0), dtype=object)) / d
    return out


def la_power(a, n):
    a = _as_matrix(a)
    if n < 0:
        a, n = la_inv(a), -n
    r = wrap(np.eye(a.shape[0]).astype(object))
    for _ in range(int(n)):
        r = matmul(r, a)
    return r


def la_multi_dot(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = matmul(r, x)
    return r


LINALG = {"det": la_det, "inv": la_inv, "matrix_power": la_power, "multi_dot": la_multi_dot, "solve": lambda a, b: matmul(la_inv(a), b)}


def np_kron(a, b):
    if _objarr(a) or _objarr(b):
        A, B = np.asarray(_plain(a), dtype=object), np.asarray(_plain(b), dtype=object)
        nd = max(A.ndim, B.ndim)
        A = A.reshape((1,) * (nd - A.ndim) + A.shape)
        B = B.reshape((1,) * (nd - B.ndim) + B.shape)
        sh = tuple(x * y for x, y in zip(A.shape, B.shape))
        out = SArr(sh)
        o = out.view(np.ndarray)
        for i in np.ndindex(A.shape):
            va = A[i]
            za = _isz(va)
            for j in np.ndindex(B.shape):
                idx = tuple(p * q + r for p, q, r in zip(i, B.shape, j))
                vb = B[j]
                o[idx] = 0 if za or _isz(vb) else va * vb
        return out
    return np.kron(_plain(a), _plain(b))


def _isz(v):
    if isinstance(v, Num):
        return not v.p
    if isinstance(v, Cx):
        return not v.re and not v.im
    return type(v) in (int, float, complex) and v == 0


def matmul(a, b):
    """Sparse-aware object matmul."""
    A, B = np.asarray(_plain(a), dtype=object), np.asarray(_plain(b), dtype=object)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a1, b1 = A.ndim == 1, B.ndim == 1
    if a1:
        A = A.reshape(1, -1)
    if b1:
        B = B.reshape(-1, 1)
    if A.ndim != 2 or B.ndim != 2:
        return wrap(np.matmul(A, B))
    n, m = A.shape
    if B.shape[0] != m:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    k = B.shape[1]
    rows = [[(j, A[i, j]) for j in range(m) if not _isz(A[i, j])] for i in range(n)]
    brows = [[(j, B[i, j]) for j in range(k) if not _isz(B[i, j])] for i in range(m)]
    out = SArr((n, k))
    o = out.view(np.ndarray)
    for i in range(n):
        acc = {}
        for j, v in rows[i]:
            for c, w in brows[j]:
                t = v * w
                acc[c] = acc[c] + t if c in acc else t
        for c in range(k):
            o[i, c] = acc.get(c, 0)
    if a1 and b1:
        return o[0, 0]
    if a1:
        return wrap(o[0])
    if b1:
        return wrap(o[:, 0])
    return out


def np_dot(a, b):
    if _objarr(a) or _objarr(b) or contains_sym(a) or contains_sym(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return a * b
        if hasattr(a, "dot_model"):
            return a.dot(b)
        return matmul(a if isinstance(a, np.ndarray) else sarray(a), b if isinstance(b, np.ndarray) else sarray(b))
    return np.dot(_plain(a), _plain(b))


FUNCS = {
    np.isclose: np_isclose, np.allclose: np_allclose, np.array_equal: np_array_equal, np.real: np_real, np.real_if_close: np_real_if_close,
    np.imag: np_imag, np.sum: np_sum, np.amax: amax, np.max: amax, np.argsort: argsort, np.vdot: np_vdot,
    np.linalg.norm: np_norm, np.iscomplexobj: np_iscomplexobj, np.all: np_all, np.any: np_any,
    np.round: np_round, np.around: np_round, np.outer: np_outer, np.mean: np_mean, np.prod: np_prod,
    np.amin: amin, np.min: amin, np.ptp: np_ptp, np.std: np_std, np.var: np_var, np.argmin: argmin, np.iscomplex: np_iscomplex,
    np.isreal: np_isreal, np.bincount: np_bincount, np.linalg.det: la_det, np.linalg.inv: la_inv, np.linalg.matrix_power: la_power,
    np.linalg.multi_dot: la_multi_dot, np.where: np_where, np.kron: np_kron, np.argmax: argmax, np.concatenate: np_concatenate, np.dot: np_dot,
}

_orig_ufunc_impl = ufunc_impl


_KEEP_NARROW = {"add", "subtract", "multiply", "negative", "absolute", "power", "floor_divide", "remainder", "left_shift"}


def ufunc_impl(ufunc, method, inputs, kwargs):  # noqa: F811
    if ufunc is np.matmul and method == "__call__" and not kwargs.get("out"):
        return matmul(*inputs)
    return _orig_ufunc_impl(ufunc, method, inputs, kwargs)


OVERRIDES = {
    "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray, "fromiter": np_fromiter,
    "zeros": _creator(np.zeros), "ones": _creator(np.ones), "empty": _creator(np.empty),
    "isclose": np_isclose, "allclose": np_allclose, "array_equal": np_array_equal,
    "real": np_real, "real_if_close": np_real_if_close, "imag": np_imag, "sum": np_sum, "amax": amax, "max": amax, "argsort": argsort,
    "argmax": argmax, "vdot": np_vdot, "iscomplexobj": np_iscomplexobj, "eye": np_eye, "identity": np_eye,
    "all": np_all, "any": np_any, "round": np_round, "around": np_round, "concatenate": np_concatenate,
    "outer": np_outer, "mean": np_mean, "prod": np_prod, "where": np_where, "kron": np_kron, "dot": np_dot,
    "frombuffer": np_frombuffer, "amin": amin, "min": amin, "argmin": argmin, "ptp": np_ptp, "std": np_std, "var": np_var,
    "iscomplex": np_iscomplex, "isreal": np_isreal, "bincount": np_bincount,
}
for _n in ("std", "var", "ptp", "min", "amin", "max", "amax", "argmax", "argmin"):
    OVERRIDES[_n] = (lambda f, g: lambda a, *x, **k: f(a, *x, **k) if contains_sym(a) or _objarr(a) else g(_plain(a), *x, **k))(OVERRIDES[_n], getattr(np, _n))
for _n in ("exp", "sqrt", "cos", "sin", "log", "log2", "conjugate", "absolute", "floor", "ceil", "rint", "square", "sign", "isnan", "isfinite", "isinf", "tan", "log10",
           "log1p", "expm1", "deg2rad", "radians", "rad2deg", "degrees", "cosh", "sinh", "negative", "positive", "logical_not", "reciprocal", "trunc", "fabs"):
    OVERRIDES[_n] = _sc(_n)
OVERRIDES["abs"] = OVERRIDES["absolute"]
OVERRIDES["conj"] = OVERRIDES["conjugate"]
for _n in _PYOPS:
    OVERRIDES[_n] = _bin(_n)
