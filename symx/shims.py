"""Redirect the names `np`, `math`, `json`, `float`, ... inside the repository's
modules to facades that also understand symbolic values.  The repository's own
code objects are unchanged; only their module globals are extended."""
import ast
import builtins
import cmath
import importlib
import json as real_json
import math as real_math
import pkgutil
import random as real_random
import sys
import types
from fractions import Fraction

import numpy as np
import sympy

from . import arr, core, symp, tokens
from .core import Cx, INum, Num, SBool, Sym, Unsupported, lift


class _Meta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return cls._sym(x)
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __repr__(cls):
        return repr(cls._real)


class SFloat(metaclass=_Meta):
    _real = float
    dtype = np.dtype(float)  # numpy reads this when the class is used as a dtype
    _sym = staticmethod(lambda x: isinstance(x, Num) and not isinstance(x, INum))

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x) == object and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, Cx):
            if x.im:
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return Num(x.re)
        if isinstance(x, Num):
            return core.fp_round(x) if core.FP_FLOAT[0] else Num(x.p)
        if isinstance(x, sympy.Basic) and symp.has_numatom(x):
            return symp.encode_float(x)
        return tokens.lit(float(x))


class SComplex(metaclass=_Meta):
    _real = complex
    dtype = np.dtype(complex)
    _sym = staticmethod(lambda x: isinstance(x, Cx))

    def __new__(cls, x=0, y=None):
        if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x) == object and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, sympy.Basic) and symp.has_numatom(x):
            x = symp.encode_complex(x)
        if isinstance(y, sympy.Basic) and symp.has_numatom(y):
            y = symp.encode_complex(y)
        if isinstance(x, Sym) or isinstance(y, Sym):
            r = lift(x)
            if r is None:
                raise TypeError("complex() can't take second arg if first is a string")
            if y is not None:
                r = core.op_add(r, core.op_mul(lift(1j), lift(y)))
            re, im = core.parts(r)
            return Cx(re, im)
        return tokens.lit(complex(x) if y is None else complex(x, y))


class SInt(metaclass=_Meta):
    _real = int
    dtype = np.dtype(int)
    _sym = staticmethod(lambda x: isinstance(x, INum))

    def __new__(cls, x=0, *base, **kw):
        if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x) == object and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, Cx):
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
        if isinstance(x, Num):
            return core.trunc_sym(x)
        if isinstance(x, SBool):
            return int(bool(x))
        if isinstance(x, sympy.Basic) and symp.has_numatom(x):
            return core.trunc_sym(symp.encode_float(x))
        return tokens.lit(int(x, *base, **kw))


class SFraction(metaclass=_Meta):
    _real = Fraction
    _sym = staticmethod(lambda x: False)

    def __new__(cls, x=0, y=None, **k):
        if isinstance(x, Sym) or isinstance(y, Sym):
            r = Num(lift(x).p)
            return r if y is None else r / Num(lift(y).p)
        return Fraction(x, y, **k)


class SNpFloat(metaclass=_Meta):
    _real = np.float64
    _sym = staticmethod(lambda x: False)

    def __new__(cls, x=0.0):
        r = SFloat(x)
        return r if isinstance(r, Sym) else np.float64(r)


class SNpComplex(metaclass=_Meta):
    _real = np.complex128
    _sym = staticmethod(lambda x: False)

    def __new__(cls, x=0.0):
        r = SComplex(x)
        return r if isinstance(r, Sym) else np.complex128(r)


REAL = {SNpFloat: np.float64, SNpComplex: np.complex128, SFraction: Fraction, SFloat: float, SComplex: complex, SInt: int}


def real_type(t):
    try:
        return REAL.get(t, t) if isinstance(t, type) else t
    except TypeError:
        return t


class Facade(types.ModuleType):
    def __init__(self, base, over):
        super().__init__(base.__name__)
        self.__dict__["_base"] = base
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_base"], n)


# --- math -----------------------------------------------------------------
def m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if isinstance(a, Sym) or isinstance(b, Sym):
        a, b = lift(a), lift(b)
        d = abs(a - b)
        return (d <= rel_tol * abs(a)) | (d <= rel_tol * abs(b)) | (d <= abs_tol)
    return real_math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def m_fn(name, f=None):
    def g(x, *a):
        if isinstance(x, sympy.Basic) and symp.has_numatom(x):
            x = symp.encode_float(x)
        if isinstance(x, Sym):
            if name == "log" and a:
                return x.log() / lift(real_math.log(a[0]))
            return getattr(x, name)()
        return getattr(real_math, name)(x, *a)

    g.__name__ = name
    return g


def m_fsum(xs):
    xs = list(xs)
    return sum(xs) if arr.contains_sym(xs) else real_math.fsum(xs)


def m_hypot(*xs):
    if arr.contains_sym(xs):
        return sum(lift(x) * x for x in xs).sqrt()
    return real_math.hypot(*xs)


def m_prod(xs, start=1):
    for x in xs:
        start = start * x
    return start


def m_isnan(x):
    return False if isinstance(x, Sym) else real_math.isnan(x)


def m_trunc(x):
    return core.trunc_sym(x) if isinstance(x, Num) else real_math.trunc(x)


def m_fabs(x):
    return abs(Num(x.p)) if isinstance(x, Num) else real_math.fabs(x)


def m_sym(name, f):
    real = getattr(real_math, name)

    def g(*a):
        return f(*map(lift, a)) if any(isinstance(x, Sym) for x in a) else real(*a)

    g.__name__ = name
    return g


MATH = {n: m_fn(n) for n in ("sqrt", "exp", "log", "log2", "cos", "sin", "tan")}
for _n in ("log10", "log1p", "expm1", "radians", "degrees", "cosh", "sinh"):
    MATH[_n] = m_sym(_n, arr.UNARY[_n])
MATH["pow"] = m_sym("pow", lambda a, b: a**b)
MATH["tanh"] = m_sym("tanh", lambda a: 1 - 2 / ((2 * a).exp() + 1))
MATH["copysign"] = m_sym("copysign", lambda a, b: abs(a) if bool(b >= 0) else -abs(a))
MATH["fmod"] = m_sym("fmod", lambda a, b: a - b * core.trunc_sym(a / b))
MATH["modf"] = m_sym("modf", lambda a: (a - core.trunc_sym(a), core.trunc_sym(a)))
MATH["dist"] = lambda p, q: sum((lift(a) - b) ** 2 for a, b in zip(p, q)).sqrt() if arr.contains_sym([p, q]) else real_math.dist(p, q)
MATH["sumprod"] = lambda p, q: sum(a * b for a, b in zip(p, q))
MATH.update(isclose=m_isclose, fsum=m_fsum, hypot=m_hypot, prod=m_prod, isnan=m_isnan,
            trunc=m_trunc, fabs=m_fabs, isfinite=lambda x: True if isinstance(x, Sym) else real_math.isfinite(x),
            isinf=lambda x: False if isinstance(x, Sym) else real_math.isinf(x))
CMATH = {
    "exp": lambda x: lift(x).exp() if isinstance(x, Sym) else cmath.exp(x),
    "isclose": lambda a, b, **k: m_isclose(a, b, **k) if isinstance(a, Sym) or isinstance(b, Sym) else cmath.isclose(a, b, **k),
    "rect": lambda r, p: lift(r) * (1j * lift(p)).exp() if isinstance(r, Sym) or isinstance(p, Sym) else cmath.rect(r, p),
    "isfinite": lambda x: True if isinstance(x, Sym) else cmath.isfinite(x), "isnan": lambda x: False if isinstance(x, Sym) else cmath.isnan(x),
    "isinf": lambda x: False if isinstance(x, Sym) else cmath.isinf(x),
}


# --- json -----------------------------------------------------------------
def json_over(base):
    def dumps(obj, *a, **k):
        return base.dumps(tokens.tokenise(obj), *a, **k)

    def dump(obj, fp, *a, **k):
        return base.dump(tokens.tokenise(obj), fp, *a, **k)

    def loads(s, *a, **k):
        return tokens.untoken(base.loads(s, *a, **k))

    def load(fp, *a, **k):
        return tokens.untoken(base.load(fp, *a, **k))

    return dict(dumps=dumps, dump=dump, loads=loads, load=load)


# --- randomness -----------------------------------------------------------
class RNG:
    """Contract stub: `choice(a, size, p)` returns elements of `a` having p > 0;
    which ones is decided by the explorer (symbolic) or the recorded trace."""

    def __init__(self, *a, **k):
        pass

    def choice(self, a, size=None, replace=True, p=None, **kw):
        from .api import CUR

        return CUR.rng_choice(a, size, replace, p)

    def integers(self, low, high=None, size=None, endpoint=False, **kw):
        if high is None:
            low, high = 0, low
        rng = list(range(int(low), int(high) + (1 if endpoint else 0)))
        return self.choice(rng, size)

    randint = integers

    def random(self, size=None):
        raise Unsupported("rng.random")

    def multinomial(self, n, pvals, size=None):
        from .api import CUR

        if size is not None:
            raise Unsupported("multinomial(size)")
        return CUR.rng_multinomial(n, pvals)

    def permutation(self, x):
        raise Unsupported("rng.permutation")

    def shuffle(self, x):
        raise Unsupported("rng.shuffle")

    def uniform(self, *a, **k):
        raise Unsupported("rng.uniform")

    def normal(self, *a, **k):
        raise Unsupported("rng.normal")


class RandomNS(types.ModuleType):
    Generator = np.random.Generator
    RandomState = RNG

    def default_rng(self, *a, **k):
        return RNG()

    def seed(self, *a, **k):
        return None

    def __getattr__(self, n):
        return getattr(RNG(), n)


RANDOM = RandomNS("numpy.random")


class PyRandom(types.ModuleType):
    def choice(self, seq):
        from .api import CUR

        seq = list(seq)
        return CUR.rng_choice(seq, None, True, None)

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        from .api import CUR

        if cum_weights is not None:
            raise Unsupported("random.choices(cum_weights)")
        return list(CUR.rng_choice(list(population), k, True, weights))

    def sample(self, population, k):
        from .api import CUR

        return list(CUR.rng_choice(list(population), k, False, None))

    def randint(self, a, b):
        return self.choice(range(a, b + 1))

    def randrange(self, *a):
        return self.choice(range(*a))

    def __getattr__(self, n):
        if n in ("seed",):
            return lambda *a, **k: None
        return getattr(real_random, n)


PYRANDOM = PyRandom("random")

NP = Facade(np, dict(arr.OVERRIDES))
NP.__dict__["random"] = RANDOM
NP.__dict__.update(float64=SNpFloat, double=SNpFloat, float_=SNpFloat, complex128=SNpComplex, cdouble=SNpComplex, complex_=SNpComplex)


class _Linalg(types.ModuleType):
    norm = staticmethod(lambda a, *x, **k: arr.np_norm(a, *x, **k) if arr.contains_sym(a) else np.linalg.norm(arr._plain(a), *x, **k))

    def __getattr__(self, n):
        f = getattr(np.linalg, n)

        def g(*a, **k):
            if arr.contains_sym(list(a)):
                if n in arr.LINALG:
                    return arr.LINALG[n](*a, **k)
                raise Unsupported(f"np.linalg.{n} of symbolic values")
            return f(*a, **k)

        return g if callable(f) and not isinstance(f, type) else f


NP.__dict__["linalg"] = _Linalg("numpy.linalg")
ASTF = Facade(ast, {"literal_eval": lambda x: tokens.lit(ast.literal_eval(x))})
SYMPYF = Facade(sympy, {"sympify": symp.sympify_text, "S": sympy.S})
MATHF = Facade(real_math, MATH)

CMATHF = Facade(cmath, CMATH)
JSONF = Facade(real_json, json_over(real_json))

IDMAP = {id(np): NP, id(real_math): MATHF, id(cmath): CMATHF, id(real_json): JSONF,
         id(ast): ASTF, id(ast.literal_eval): ASTF.literal_eval, id(sympy): SYMPYF,
         id(sympy.sympify): symp.sympify_text,
         id(Fraction): SFraction, id(np.float64): SNpFloat, id(np.complex128): SNpComplex, id(real_random): PYRANDOM, id(np.random): RANDOM}
_keep = [np, ast, sympy, real_math, cmath, real_json, real_random, Fraction]
for _n, _f in MATH.items():
    IDMAP[id(getattr(real_math, _n))] = _f
for _n, _f in arr.OVERRIDES.items():
    if hasattr(np, _n):
        IDMAP[id(getattr(np, _n))] = _f
for _n, _f in json_over(real_json).items():
    IDMAP[id(getattr(real_json, _n))] = _f
try:
    import rapidjson

    RJSONF = Facade(rapidjson, json_over(rapidjson))
    IDMAP[id(rapidjson)] = RJSONF
except ImportError:  # pragma: no cover
    pass

BUILTINS = {"float": SFloat, "complex": SComplex, "int": SInt}
EXTRA = {}  # id(object) -> replacement, registered by models (scipy)

PKG = "orquestra.quantum"
SKIP = (".testing", "_contracts", "BAS_dataset", ".contract")


def import_all():
    import orquestra.quantum  # noqa

    pkg = importlib.import_module(PKG)
    for m in pkgutil.walk_packages(pkg.__path__, PKG + "."):
        if any(s in m.name for s in SKIP):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:  # noqa: a broken optional module shows up where it is used
            pass


def repo_modules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == PKG or n.startswith(PKG + ".")) and m is not None and not any(s in n for s in SKIP)]


def instrument():
    import_all()
    for m in repo_modules():
        g = m.__dict__
        for k, v in list(g.items()):
            r = EXTRA.get(id(v)) or IDMAP.get(id(v))
            if r is not None:
                g[k] = r
        for k, v in BUILTINS.items():
            if k not in g:
                g[k] = v
