"""Engine self-test: array expressions a refactoring might use, evaluated symbolically and compared with numpy.

Run with:  /opt/venv/bin/python /verif/dev/conformance.py   (a development aid, not one of the registered checks)
"""
import cmath, itertools, math, operator, os, random, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.argv[0] = "dev"
import importlib.util
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
d = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
try:
    import z3
except ImportError:
    spec = importlib.util.spec_from_file_location("z3", d + "/__init__.py", submodule_search_locations=[d])
    m = importlib.util.module_from_spec(spec); sys.modules["z3"] = m; spec.loader.exec_module(m)
import numpy, sympy
from symx import core, arr, shims, api, symp
from symx.core import Num, INum, Cx, SBool

# name space: r real (4,), s real (4,), c complex (4,), d complex (4,), m real 2x2, u complex 2x2, w complex 2x2, k int (4,), x real, z complex
EXPR = """
np.subtract.outer(r, s)
np.multiply.outer(r, c)
np.add.outer(r, r)
np.add.reduce(r)
np.multiply.reduce(c)
np.add.accumulate(r)
np.cumsum(r)
np.cumprod(r)
np.cumsum(m, axis=0)
np.sum(m, axis=1)
np.sum(m, 0)
np.sum(u)
np.sum([x, 2, x])
np.sum(r * s)
m.sum(axis=0)
m.sum(0)
m.sum()
r.mean()
np.mean(r)
np.mean(m, axis=0)
np.average(r, weights=s)
np.average(r)
np.var(r)
np.std(r)
np.diff(r)
np.dot(m, m)
np.dot(r, s)
m @ m
u @ w
u @ c[:2]
np.matmul(u, w)
np.vdot(c, d)
np.inner(r, s)
np.inner(c, d)
np.outer(r, s)
np.outer(c, d.conj())
np.kron(u, w)
np.kron(m, np.eye(2))
np.kron(np.eye(2), u)
np.kron(r[:2], c[:2])
np.tensordot(u, w, axes=([1], [0]))
np.tensordot(u, w, axes=1)
np.tensordot(u, c.reshape(2, 2), axes=(1, 1))
np.tensordot(u, w, axes=0)
np.einsum('ij,jk->ik', u, w)
np.einsum('i,i->', r, s)
np.einsum('ij,kl->ikjl', u, w)
np.einsum('ii', u)
np.einsum('ii->i', u)
np.einsum('ij,j', u, c[:2])
np.einsum('i,ij,j', c[:2].conj(), u, c[:2])
np.einsum('...i,...i', r, s)
np.trace(u)
u.trace()
np.diag(r)
np.diag(u)
np.diagonal(u)
u.diagonal()
np.diagflat(r)
np.transpose(u)
u.T
u.conj().T
np.conj(u).T
np.conjugate(u)
c.conjugate()
np.conj(z)
u.transpose()
u.transpose(1, 0)
np.swapaxes(u, 0, 1)
np.moveaxis(c.reshape(2, 2), 0, 1)
np.rollaxis(c.reshape(2, 2), 1)
np.roll(r, 1)
np.flip(r)
r[::-1]
np.flipud(m)
np.fliplr(m)
np.rot90(m)
np.reshape(c, (2, 2))
c.reshape(2, 2)
c.reshape((2,) * 2)
c.reshape(-1, 2)
c.reshape(-1)
np.ravel(u)
u.ravel()
u.flatten()
list(u.flat)
np.squeeze(c.reshape(1, 4))
c.reshape(4, 1).squeeze()
np.expand_dims(c, 0)
c[:, None] * d[None, :]
c[np.newaxis, :]
np.atleast_1d(x)
np.atleast_2d(r)
np.concatenate([r, s])
np.concatenate((m, m), axis=1)
np.stack([r, s])
np.stack([r, s], axis=1)
np.vstack([r, s])
np.hstack([r, s])
np.column_stack([r, s])
np.block([[m, m], [m, m]])
np.append(r, s)
np.append(r, x)
np.repeat(r, 2)
np.tile(r, 2)
np.insert(r, 1, x)
np.delete(r, 1)
np.take(r, [0, 2])
r.take([1, 3])
r[[0, 2]]
r[np.array([3, 1])]
r[numpy.array([True, False, True, False])]
np.compress([1, 0, 1, 0], r)
np.choose([0, 1, 0, 1], [r, s])
np.where(numpy.array([True, False, True, False]), r, s)
np.where([1, 0, 1, 0], r, 0)
np.split(r, 2)
np.array_split(r, 3)
np.full(3, x)
np.full((2, 2), z)
np.full_like(r, x)
np.zeros_like(r)
np.zeros_like(c)
np.ones_like(c)
np.empty_like(r).shape
np.copy(r)
r.copy()
np.array(r)
np.array(r, copy=True)
np.array([x, 1.0, z])
np.array([[x, 0], [0, z]])
np.array([r, s])
np.array(u.tolist())
np.asarray(r, dtype=complex)
np.asarray(u, dtype=np.complex128)
np.asarray(k, dtype=float)
np.array(r, dtype=np.float64)
np.ascontiguousarray(u)
r.astype(complex)
r.astype(np.complex128)
k.astype(float)
u.astype(complex)
np.abs(r)
abs(r)
np.abs(c) ** 2
np.absolute(c) ** 2
abs(c) ** 2
np.real(c)
np.imag(c)
c.real
c.imag
c.real ** 2 + c.imag ** 2
(c * c.conj()).real
(c.conj() * c).real
np.real(c * np.conj(c))
np.square(r)
np.square(c)
np.abs(c)
np.sqrt(r + 3)
np.exp(r)
np.exp(1j * r)
np.exp(-1j * x)
np.cos(r)
np.sin(r)
np.tan(x)
np.log(r + 3)
np.log2(x + 3)
np.log10(x + 3)
np.log1p(x + 3)
np.expm1(x)
np.power(r, 2)
np.power(c, 3)
np.power(2, k)
np.float_power(r + 3, 2)
r ** 2
c ** 2
2 ** k
(-1) ** k
np.negative(r)
np.positive(r)
-r
np.reciprocal(r + 3)
1 / (r + 3)
np.divide(r, s + 3)
np.true_divide(r, s + 3)
np.multiply(r, c)
np.add(r, 1)
np.subtract(r, s)
np.hypot(r, s)
np.maximum(r, s)
np.minimum(r, 0.1)
np.fmax(r, s)
np.fmin(r, s)
np.max(r)
np.min(r)
np.amax(r)
np.amin(r)
r.max()
r.min()
np.max(m, axis=0)
np.min(m, axis=1)
m.max(axis=0)
np.ptp(r)
np.argmax(r)
np.argmin(r)
r.argmax()
r.argmin()
np.argsort(r)
r.argsort()
np.sort(r)
sorted(r)
np.sort(r)[::-1]
np.median(r)
np.clip(r, -0.5, 0.5)
r.clip(0, 1)
np.clip(x, 0, None)
np.sign(r)
np.heaviside(r, 0.5)
np.floor(r)
np.ceil(r)
np.rint(r)
np.round(r, 1)
np.round(r)
np.around(r, 2)
r.round(1)
np.trunc(r)
np.fix(r)
np.floor_divide(k, 2)
np.mod(k, 2)
k % 2
k // 2
np.remainder(k, 2)
np.divmod(k, 2)
divmod(k[0], 2)
np.isclose(r, r)
np.isclose(x, x + 1)
np.allclose(u, w)
np.allclose(u, u)
np.array_equal(r, r)
np.array_equal(r, s)
np.array_equiv(r, r)
np.all(r > -10)
np.any(r > 10)
(r > -10).all()
(r > 10).any()
np.all(m > -10, axis=0)
np.any(m > 0, axis=1)
(m > 0).all(axis=1)
np.count_nonzero(r)
np.count_nonzero(r > 0)
(r > 0).sum()
np.sum(r > 0)
np.nonzero(r > 0)[0]
np.flatnonzero(r > 0)
np.argwhere(r > 0)
np.where(r > 0)[0]
np.where(r > 0, r, 0)
np.where(r > 0, r, -r)
r[r > 0]
np.extract(r > 0, r)
np.logical_and(r > 0, s > 0)
np.logical_or(r > 0, s > 0)
np.logical_not(r > 0)
np.logical_xor(r > 0, s > 0)
np.logical_and.reduce(r > -10)
(r > 0) & (s > 0)
~(r > 0)
np.greater(r, s)
np.less_equal(r, s)
np.equal(r, s)
np.not_equal(r, s)
np.iscomplexobj(c)
np.iscomplexobj(r)
np.isrealobj(r)
np.iscomplex(c)
np.isreal(r)
np.isscalar(x)
np.isnan(r)
np.isnan(x)
np.isinf(r)
np.isfinite(r)
np.isfinite(r).all()
np.nan_to_num(r)
np.linalg.norm(r)
np.linalg.norm(c)
np.linalg.norm(c) ** 2
np.linalg.norm(r, 2)
np.linalg.norm(r, 1)
np.linalg.norm(r, ord=np.inf)
np.linalg.norm(m)
np.linalg.norm(c, axis=0)
np.linalg.multi_dot([u, w, u])
np.linalg.matrix_power(u, 3)
np.linalg.matrix_power(u, 0)
np.linalg.det(m)
np.linalg.inv(m + 3 * np.eye(2))
np.linalg.solve(m + 3 * np.eye(2), r[:2])
np.prod(r)
r.prod()
np.prod([x, 2.0, x])
np.cross(r[:3], s[:3])
np.convolve(r, s)
np.polyval([1, 2, 3], x)
np.polyval(r, x)
np.bincount([0, 1, 1, 3], weights=r)
np.interp(0.5, [0, 1], r[:2])
np.meshgrid(r[:2], s[:2])[0]
np.ix_([0, 1], [1, 0])[0]
u[np.ix_([0, 1], [1, 0])]
np.tril(m)
np.triu(m)
np.trapz(r)
np.angle(z)
np.unique([3, 1, 3])
np.apply_along_axis(np.sum, 1, m)
np.vectorize(lambda v: v * 2)(r)
np.frompyfunc(lambda v: v * 2, 1, 1)(r)
np.fromiter((v * 2 for v in r), dtype=float)
np.fromiter((v * 2 for v in c), dtype=complex, count=4)
np.fromfunction(lambda i, j: i + j, (2, 2))
np.broadcast_to(r, (2, 4))
np.lexsort((r, s))
np.searchsorted(np.sort(r), x)
np.searchsorted(np.array([0.0, 0.5, 1.0]), x)
np.digitize(x, [0, 0.5, 1])
np.unravel_index(3, (2, 2))
np.ravel_multi_index((1, 1), (2, 2))
np.ndindex(2, 2).__next__()
np.nditer(numpy.arange(3)).__next__()
list(np.ndenumerate(r))
np.add.at(q := np.zeros(4, dtype=complex), [0, 1, 1, 3], c) or q
np.add.at(q := np.zeros(4), [0, 1, 1, 3], r) or q
[q := np.zeros(4), q.__setitem__(slice(0, 2), r[:2])] and q
[q := np.zeros((2, 2), dtype=complex), q.__setitem__((0, 1), z)] and q
[q := np.zeros(4, dtype=complex), q.__iadd__(r)] and q
[q := np.empty(4), q.fill(x)] and q
np.put(q := np.zeros(4), [1, 2], r[:2]) or q
np.place(q := np.zeros(4), [True, False, True, False], r[:2]) or q
np.copyto(q := np.zeros(4), r) or q
np.fill_diagonal(q := np.zeros((2, 2)), r[:2]) or q
np.multiply(r, s, out=np.zeros(4))
np.matmul(u, w, out=np.zeros((2, 2), dtype=complex))
r.item(0)
r[0].item()
float(x)
complex(z)
complex(x)
int(k[0])
float(r[0])
float(r.sum())
x.real
z.imag
x.conjugate()
round(x, 2)
round(x)
abs(x)
abs(z)
abs(z) ** 2
(z * z.conjugate()).real
pow(x, 2)
pow(z, 2)
pow(2, k[0])
sum(r)
sum(r.tolist())
max(r)
min(r)
max(r, key=abs)
math.fsum(r)
math.prod(r)
math.hypot(x, 1)
math.sqrt(x + 3)
math.exp(x)
math.log(x + 3)
math.log(x + 3, 2)
math.log2(x + 3)
math.log10(x + 3)
math.log1p(x + 3)
math.cos(x)
math.sin(x)
math.tan(x)
math.pow(x + 3, 2)
math.floor(x)
math.ceil(x)
math.trunc(x)
math.fabs(x)
math.isclose(x, x)
math.isclose(x, x + 1e-3, abs_tol=1e-2)
math.isnan(x)
math.isinf(x)
math.isfinite(x)
math.fmod(x + 3, 2)
math.copysign(1, x)
math.dist(r, s)
math.sumprod(r, s)
math.modf(x + 3)
math.radians(x)
math.degrees(x)
math.comb(5, 2)
math.gcd(int(k[0]), 2)
math.isqrt(9)
math.atan2(x, 1)
math.acos(x / 3)
math.cosh(x)
math.sinh(x)
math.tanh(x)
np.deg2rad(x)
np.cosh(r)
cmath.exp(1j * x)
cmath.exp(z)
cmath.rect(1, x)
cmath.polar(z)[0]
cmath.phase(z)
cmath.sqrt(x + 3)
cmath.isclose(z, z)
cmath.cos(x)
cmath.isfinite(z)
cmath.isnan(z)
complex(x, x)
complex(math.cos(x), math.sin(x))
complex(0, x)
np.cos(x) + 1j * np.sin(x)
1j * x
x * 1j + 2
z / (x + 3)
x / z
1 / z
z - 1
1 - z
z == z
x == x
x != x
x < 1
bool(x)
bool(z)
not x
x or 2
x is None
np.result_type(r, c)
np.common_type(r, c)
r.dtype
c.dtype
np.issubdtype(c.dtype, np.complexfloating)
np.can_cast(r.dtype, complex)
r.dtype.kind
c.dtype == complex
r.dtype == float
k.dtype.kind
r.shape
len(r)
r.ndim
r.size
np.size(r)
np.shape(m)
np.ndim(m)
r.nbytes
isinstance(x, float)
isinstance(x, (int, float))
isinstance(z, complex)
isinstance(r, np.ndarray)
isinstance(r[0], np.floating)
isinstance(r[0], float)
isinstance(c[0], np.complexfloating)
isinstance(c[0], complex)
isinstance(r[0], numbers.Number)
isinstance(x, numbers.Real)
isinstance(z, numbers.Real)
isinstance(z, numbers.Complex)
isinstance(x, numbers.Complex)
isinstance(k[0], numbers.Integral)
isinstance(k[0], (int, np.integer))
isinstance(k[0], np.integer)
np.float64(x)
np.complex128(z)
np.complex128(x)
np.float64(x) * 2
np.array(x)
np.array(x).item()
np.array(z).reshape(-1)
functools.reduce(operator.mul, r)
functools.reduce(np.kron, [u, w])
functools.reduce(operator.matmul, [u, w])
functools.reduce(np.dot, [u, w])
functools.reduce(np.multiply, [r, s])
itertools.accumulate(r).__next__()
list(itertools.accumulate(r))
operator.mul(x, z)
operator.itemgetter(1)(r)
statistics.mean(r)
statistics.fmean(r)
sum(v * w_ for v, w_ in zip(r, s))
dict(zip(range(4), r))[2]
collections.Counter({0: 1, 1: 2})[1]
{i: v for i, v in enumerate(r)}[1]
[*r]
np.array([*map(abs, r)])
list(map(float, r))
tuple(r)
r.tolist()
u.tolist()
[list(row) for row in u]
any(v > 10 for v in r)
all(v > -10 for v in r)
sorted(range(4), key=lambda i: r[i])
sorted(r, reverse=True)
sorted(range(4), key=r.__getitem__)
min(range(4), key=lambda i: r[i])
max(enumerate(r), key=lambda t: t[1])[0]
heapq.nlargest(2, r)
heapq.nsmallest(2, range(4), key=lambda i: r[i])
bisect.bisect([0, 0.5, 1], x)
copy.copy(r)
copy.deepcopy(r)
copy.deepcopy({'a': x})['a']
fractions.Fraction(1, 3) * 2
sympy.Matrix(m)
sympy.Matrix(u) * sympy.Matrix(w)
sympy.Matrix(2, 2, lambda i, j: m[i, j])
np.array(sympy.Matrix(m))
np.array(sympy.Matrix(m)).astype(float)
np.array(sympy.Matrix(u), dtype=complex)
np.array(sympy.Matrix(u).tolist())
sympy.Matrix(m).T
sympy.Matrix(u).H
sympy.Matrix(u).conjugate()
sympy.Matrix(u).adjoint()
sympy.eye(2) * x
sympy.diag(1, x)
sympy.kronecker_product(sympy.Matrix(m), sympy.eye(2))
sympy.Symbol('t') * x
(sympy.Symbol('t') * x).subs({sympy.Symbol('t'): 2})
(sympy.Symbol('t') + 1).subs(sympy.Symbol('t'), x)
(sympy.Symbol('t') + 1).xreplace({sympy.Symbol('t'): sympy.sympify(x)})
sympy.sin(sympy.Symbol('t')).subs({sympy.Symbol('t'): x})
sympy.cos(x)
sympy.exp(sympy.I * x)
sympy.sympify(x)
sympy.N(sympy.sympify(x))
sympy.sympify(x).is_number
float(sympy.sympify(x))
complex(sympy.sympify(x) * sympy.I)
sympy.lambdify([sympy.Symbol('t')], sympy.sin(sympy.Symbol('t')))(x)
sympy.sqrt(sympy.sympify(x + 3))
sympy.Float(x)
sympy.re(sympy.sympify(z))
sympy.conjugate(sympy.sympify(z))
sympy.Abs(sympy.sympify(x))
""".strip().splitlines()

VALS = dict(r=[0.25, -0.75, 0.5, 0.875], s=[-0.5, 0.125, 1.25, 0.375], c=[0.5 + 0.25j, -0.25 + 1j, 0.125 - 0.5j, -0.75 - 0.625j],
            d=[0.25 - 0.5j, 0.375 + 0.5j, -0.125j + 1, 0.625 + 0.25j], k=[0, 1, 2, 3], x=0.375, z=0.5 - 0.625j)


def plain():
    g = {n: (numpy.array(v) if isinstance(v, list) else v) for n, v in VALS.items()}
    return g


def symbolic():
    ids = {}

    def real(n, v):
        x = core.new_real(n, v - 1e-9, v + 1e-9)
        ids[core.CTX.byname[n].id] = v
        return x

    def one(n, v):
        if isinstance(v, complex):
            return core.Cx(*(core.Num(real(n + p, w).p).p for p, w in (("re", v.real), ("im", v.imag)))) if False else core.mk(real(n + ".re", v.real).p, real(n + ".im", v.imag).p)
        if isinstance(v, int):
            x = core.new_int(n, v, v + 0)
            ids[core.CTX.byname[n].id] = v
            return x
        return real(n, v)

    g = {}
    for n, v in VALS.items():
        if isinstance(v, list):
            g[n] = arr.sarray([one(f"{n}{i}", w) for i, w in enumerate(v)])
        else:
            g[n] = one(n, v)
    return g, ids


def conc(x, env):
    if isinstance(x, SBool):
        return core.b_eval(x, env)
    if isinstance(x, Cx):
        return complex(core.p_eval(x.re, env), core.p_eval(x.im, env))
    if isinstance(x, core.Num):
        return core.p_eval(x.p, env)
    if isinstance(x, sympy.MatrixBase):
        return [[conc(x[i, j], env) for j in range(x.shape[1])] for i in range(x.shape[0])]
    if isinstance(x, sympy.Basic):
        if symp.has_numatom(x) and not x.free_symbols - {s for s in x.free_symbols if symp.has_numatom(s)}:
            return conc(symp.encode_complex(x), env)
        return str(x) if x.free_symbols else complex(x)
    if isinstance(x, numpy.ndarray):
        return [conc(v, env) for v in x] if x.ndim else conc(x.reshape(-1)[0], env)
    if isinstance(x, (list, tuple)):
        return [conc(v, env) for v in x]
    return x


def same(a, b):
    if isinstance(a, sympy.MatrixBase):
        a = a.tolist()
    if isinstance(a, (list, tuple, numpy.ndarray)) and isinstance(b, (list, tuple, numpy.ndarray)):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    if isinstance(a, sympy.Basic):
        a = conc(a, {})
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    try:
        return bool(abs(complex(a) - complex(b)) < 1e-6)
    except Exception:
        try:
            return bool(a == b)
        except Exception:
            return False


import numbers, functools, statistics, collections, heapq, bisect, copy, fractions
shims.instrument()
base = dict(math=math, cmath=cmath, itertools=itertools, operator=operator, numpy=numpy, numbers=numbers, functools=functools, statistics=statistics,
            collections=collections, heapq=heapq, bisect=bisect, copy=copy, fractions=fractions, sympy=sympy)
bad = 0
quiet = "-q" in sys.argv
for e in EXPR:
    if e.startswith("#"):
        continue
    g = dict(base, np=numpy, **plain())
    g["m"], g["u"], g["w"] = g["r"].reshape(2, 2), g["c"].reshape(2, 2), g["d"].reshape(2, 2)
    try:
        want = eval(e, g)
    except Exception as ex:
        want = ex
    core.set_ctx(core.Ctx())
    core.FP_DIV[0] = False
    api.CUR = api.S("quick") if hasattr(api, "S") else None
    sy, env = symbolic()
    h = dict(base, np=shims.NP, math=shims.MATHF, cmath=shims.CMATHF, sympy=shims.SYMPYF, float=shims.SFloat, complex=shims.SComplex, int=shims.SInt, **sy)
    h["m"], h["u"], h["w"] = h["r"].reshape(2, 2), h["c"].reshape(2, 2), h["d"].reshape(2, 2)
    try:
        got = eval(e, h)
        got_c = conc(got, dict(env))
        ok = same(want, got_c)
        msg = f"got {str(got_c)[:90]} want {str(want)[:90]}"
        if isinstance(want, Exception):
            ok, msg = False, f"numpy raised {want!r}"
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt):
            raise
        ok = isinstance(want, Exception)
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        msg = f"{type(ex).__name__}: {str(ex)[:90]} @ {os.path.basename(tb.filename)}:{tb.lineno}"
    if not ok:
        bad += 1
        print(f"{e:60s} {msg}")
print("failed", bad, "of", len(EXPR))
