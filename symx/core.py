"""Symbolic values (polynomials over solver variables), path conditions, branching.

The real repository functions are executed by the normal Python interpreter on
objects of the classes below.  Arithmetic builds polynomials in normal form;
every `if` on a symbolic condition asks z3 which outcomes are feasible and forks
the path; `S.check`/`S.close` obligations are discharged by z3 queries.
"""
import math
import numbers
import random
import sys
import time
from fractions import Fraction
from functools import lru_cache

import z3


# --------------------------------------------------------------------------
# control flow of the executor (BaseException: code under test cannot catch it)
class Ctl(BaseException):
    pass


class Infeasible(Ctl):
    """The current path condition is unsatisfiable."""


class Unsupported(Ctl):
    """The code under test did something the encoding does not model."""


class PathLimit(Ctl):
    """A declared bound (decisions, values, time) was exceeded on this path."""


class NeedDen(Ctl):
    """A finer base angle is needed for a trigonometric atom; restart."""

    def __init__(self, name, den):
        super().__init__(name, den)
        self.name, self.den = name, den


class Diverged(Ctl):
    """Re-execution took a different decision sequence (nondeterminism)."""


# --------------------------------------------------------------------------
SQ2 = math.sqrt(2)


class Atom:
    __slots__ = (
        "id", "name", "lo", "hi", "rule", "isint", "z", "evalf", "deps", "kind", "data",
    )

    def __init__(self, id, name, lo, hi, isint=False, kind="var", data=None):
        self.id, self.name, self.lo, self.hi = id, name, lo, hi
        self.isint, self.kind, self.data = isint, kind, data
        self.rule = None  # polynomial for atom**2
        self.evalf = None  # function(env) -> float
        self.deps = ()
        self.z = None


class Ctx:
    """State of one path."""

    def __init__(self, prefix=(), dens=None, seed=0, time_limit=60.0):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []  # decisions actually taken
        self.alts = []  # alternative prefixes discovered
        self.atoms = []
        self.logs = []
        self.log_order = False
        self.pow_hook = None
        self.byname = {}
        self.pc = []  # SBool list (branch decisions and assumptions)
        self.defs = []  # (atom ids defined, SBool): definitions of derived atoms
        self.dens = dict(dens or {})
        self.rng = random.Random(seed)
        self.nq = 0
        self.qtime = 0.0
        self.nbranch = 0
        self.tokens = {}
        self.ntok = 0
        self.hashes = []
        self.inputs = {}  # name -> ('real'|'int'|'choice', atom or value)
        self.deadline = time.time() + time_limit
        self.unknown_feas = 0
        self.notes = []
        self.poscache = {}
        self.spread = 0

    # ---- atoms
    def atom(self, name, lo=None, hi=None, isint=False, kind="var", data=None):
        a = self.byname.get(name)
        if a is not None:
            return a
        a = Atom(len(self.atoms), name, lo, hi, isint, kind, data)
        a.z = z3.Int(name) if isint else z3.Real(name)
        self.atoms.append(a)
        self.byname[name] = a
        return a


CTX = None


def set_ctx(c):
    global CTX
    CTX = c
    _mm_cache.clear()


# --------------------------------------------------------------------------
# polynomials: dict {monomial: coefficient}; monomial = ((atom id, exp), ...)
ONE = ()
_mm_cache = {}


def _mono_mul_raw(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def _reduce_mono(m):
    """Apply the square rules; returns None if m is already reduced, else a poly."""
    atoms = CTX.atoms
    for k, (aid, e) in enumerate(m):
        if e >= 2 and atoms[aid].rule is not None:
            rest = m[:k] + (((aid, e - 2),) if e > 2 else ()) + m[k + 1:]
            return p_mul(_reduce_mono(rest) or {rest: 1}, atoms[aid].rule)
        if e < 0 and atoms[aid].kind == "sqrtc":
            # 1/sqrt(n) = sqrt(n)/n
            n = atoms[aid].data
            rest = m[:k] + m[k + 1:]
            q = p_pow({((aid, 1),): Fraction(1, n) if isinstance(n, int) else 1 / n}, -e)
            return p_mul(_reduce_mono(rest) or {rest: 1}, q)
    return None


def mono_mul(a, b):
    """Product of two reduced monomials as a list of (mono, coef)."""
    key = (a, b)
    r = _mm_cache.get(key)
    if r is None:
        m = _mono_mul_raw(a, b)
        red = _reduce_mono(m)
        r = ((m, 1),) if red is None else tuple(red.items())
        if len(_mm_cache) > 300000:
            _mm_cache.clear()
        _mm_cache[key] = r
    return r


def _nc(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def p_add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def p_neg(p):
    return {m: -c for m, c in p.items()}


def p_sub(p, q):
    return p_add(p, p_neg(q))


def p_scale(p, k):
    if k == 0:
        return {}
    if k == 1:
        return p
    return {m: _nc(c * k) for m, c in p.items()}


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and ONE in p:
        return p_scale(q, p[ONE])
    if len(q) == 1 and ONE in q:
        return p_scale(p, q[ONE])
    r = {}
    if len(p) * len(q) > 4_000_000:
        raise Unsupported("polynomial too large")
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c = c1 * c2
            for m, k in mono_mul(m1, m2):
                v = r.get(m)
                ck = c if k == 1 else c * k
                r[m] = ck if v is None else v + ck
    return {m: _nc(c) for m, c in r.items() if c != 0}


def p_pow(p, n):
    r = {ONE: 1}
    while n:
        if n & 1:
            r = p_mul(r, p)
        n >>= 1
        if n:
            p = p_mul(p, p)
    return r


def p_const(p):
    """Value if p is a rational constant, else None."""
    if not p:
        return 0
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def p_key(p):
    return tuple(sorted(p.items()))


def p_atoms(p):
    return {a for m in p for a, _ in m}


def p_eval(p, env):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            v = atom_val(a, env)
            t *= v ** e
        s += t
    return s


def atom_val(aid, env):
    v = env.get(aid)
    if v is None:
        a = CTX.atoms[aid]
        if a.evalf is None:
            raise KeyError(a.name)
        v = a.evalf(env)
        env[aid] = v
    return v


# interval arithmetic over atom bounds ------------------------------------
INF = math.inf


def _imul(a, b):
    c = [x * y if not ((x == 0 and abs(y) == INF) or (y == 0 and abs(x) == INF)) else 0.0
         for x in a for y in b]
    return min(c), max(c)


def mono_bounds(m):
    lo, hi = 1.0, 1.0
    for aid, e in m:
        a = CTX.atoms[aid]
        l = -INF if a.lo is None else float(a.lo)
        h = INF if a.hi is None else float(a.hi)
        if e < 0:
            if l > 0:
                l, h = (1 / h if h != INF else 0.0), 1 / l
            elif h < 0:
                l, h = 1 / h, (1 / l if l != -INF else 0.0)
            elif l == 0:
                l, h = (1 / h if h not in (INF, 0.0) else 0.0), INF
            else:
                l, h = -INF, INF
            e = -e
        if e % 2 == 0:
            mx = max(abs(l), abs(h))
            mn = 0.0 if l <= 0 <= h else min(abs(l), abs(h))
            l, h = mn ** e, (mx ** e if mx != INF else INF)
        else:
            l = l ** e if abs(l) != INF else l
            h = h ** e if abs(h) != INF else h
        lo, hi = _imul((lo, hi), (l, h))
    return lo, hi


def p_bounds(p):
    lo = hi = 0.0
    for m, c in p.items():
        a, b = mono_bounds(m)
        l, h = _imul((a, b), (float(c), float(c)))
        lo += l
        hi += h
    return lo, hi


# --------------------------------------------------------------------------
# constants -> polynomials
def const_atom(name):
    c = CTX
    a = c.byname.get(name)
    if a is not None:
        return a
    if name == "pi":
        a = c.atom("pi", Fraction(314159265358979, 10**14), Fraction(314159265358980, 10**14), kind="pi")
        a.evalf = lambda env: math.pi
    else:  # sqrtN
        n = int(name[4:])
        r = math.isqrt(n * 10**30)
        a = c.atom(name, Fraction(r, 10**15), Fraction(r + 1, 10**15), kind="sqrtc", data=n)
        a.rule = {ONE: n}
        a.evalf = lambda env: math.sqrt(n)
        c.defs.append(((a.id,), raw_bool("eq", {((a.id, 2),): 1, ONE: -n})))
        c.defs.append(((a.id,), raw_bool("lt", {((a.id, 1),): -1})))
    return a


@lru_cache(maxsize=100000)
def snap(x):
    """float -> ('q', Fraction) | ('pi', Fraction) | ('sqrtN', Fraction)."""
    if x == 0:
        return "q", 0
    ax = abs(x)
    if 1e-4 < ax < 1e5:
        f = Fraction(x).limit_denominator(2000)
        if f != 0 and abs(float(f) - x) <= 2.3e-16 * ax:
            return "q", _nc(f)
        for nm, v in (("pi", math.pi), ("sqrt2", SQ2), ("sqrt3", math.sqrt(3))):
            r = x / v
            f = Fraction(r).limit_denominator(192)
            if f != 0 and abs(float(f) * v - x) <= 4.5e-16 * ax:
                return nm, _nc(f)
    return "q", _nc(Fraction(repr(float(x))))


def p_of_float(x):
    x = float(x)
    if x != x or x in (INF, -INF):
        raise Unsupported("non-finite constant")
    tok = CTX.tokens
    if tok:
        v = tok.get(x)
        if v is not None:
            return v
        v = tok.get(-x)
        if v is not None:
            return p_neg(v)
    k, f = snap(x)
    if k == "q":
        return {ONE: f} if f else {}
    return {((const_atom(k).id, 1),): f}


# --------------------------------------------------------------------------
class SBool:
    """Boolean over the solver variables."""

    __slots__ = ("k", "a", "_key")
    __array_ufunc__ = None

    def __init__(self, k, a):
        self.k, self.a, self._key = k, a, None

    def const(self):
        return self.a if self.k == "c" else None

    def key(self):
        if self._key is None:
            if self.k == "c":
                self._key = ("c", self.a)
            elif self.k in ("le", "lt", "eq", "ne"):
                self._key = (self.k, p_key(self.a))
            elif self.k == "not":
                self._key = ("not", self.a.key())
            else:
                self._key = (self.k,) + tuple(x.key() for x in self.a)
        return self._key

    def __bool__(self):
        return branch(self)

    def __invert__(self):
        return b_not(self)

    def __and__(self, o):
        return b_and(self, to_bool(o))

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, to_bool(o))

    __ror__ = __or__

    def __eq__(self, o):
        o = to_bool(o)
        return b_or(b_and(self, o), b_and(b_not(self), b_not(o)))

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _arith(self, op, o):
        return getattr(int(bool(self)), op)(o)

    def __add__(self, o):
        return int(bool(self)) + o

    def __radd__(self, o):
        return o + int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "SBool(%s)" % self.k

    def atoms(self):
        if self.k == "c":
            return set()
        if self.k in ("le", "lt", "eq", "ne"):
            return p_atoms(self.a)
        if self.k == "not":
            return self.a.atoms()
        s = set()
        for x in self.a:
            s |= x.atoms()
        return s


TRUE = SBool("c", True)
FALSE = SBool("c", False)


def to_bool(o):
    if isinstance(o, SBool):
        return o
    if isinstance(o, Num):
        return rel("ne", o.p)
    if isinstance(o, Cx):
        return b_or(rel("ne", o.re), rel("ne", o.im))
    return TRUE if o else FALSE


def raw_bool(k, p):
    return SBool(k, p)


def rel(k, p):
    """Relation p (k) 0, simplified by constants and atom bounds."""
    c = p_const(p)
    if c is not None:
        v = {"le": c <= 0, "lt": c < 0, "eq": c == 0, "ne": c != 0}[k]
        return TRUE if v else FALSE
    lo, hi = p_bounds(p)
    eps = 1e-12 * (1 + max(abs(lo) if lo != -INF else 0, abs(hi) if hi != INF else 0))
    if k in ("le", "lt"):
        if hi < -eps:
            return TRUE
        if lo > eps:
            return FALSE
    else:
        if lo > eps or hi < -eps:
            return FALSE if k == "eq" else TRUE
    # normalise leading coefficient for eq/ne
    if k in ("eq", "ne"):
        m0 = min(p)
        if p[m0] < 0:
            p = p_neg(p)
    return SBool(k, p)


def b_not(b):
    if b.k == "c":
        return FALSE if b.a else TRUE
    if b.k == "not":
        return b.a
    if b.k == "eq":
        return SBool("ne", b.a)
    if b.k == "ne":
        return SBool("eq", b.a)
    if b.k == "le":
        return SBool("lt", p_neg(b.a))
    if b.k == "lt":
        return SBool("le", p_neg(b.a))
    if b.k == "and":
        return b_or(*[b_not(x) for x in b.a])
    if b.k == "or":
        return b_and(*[b_not(x) for x in b.a])
    return SBool("not", b)


def b_and(*bs):
    out = []
    seen = set()
    for b in bs:
        b = to_bool(b)
        if b.k == "c":
            if not b.a:
                return FALSE
            continue
        parts = b.a if b.k == "and" else (b,)
        for x in parts:
            k = x.key()
            if k not in seen:
                seen.add(k)
                out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else SBool("and", tuple(out))


def b_or(*bs):
    out = []
    seen = set()
    for b in bs:
        b = to_bool(b)
        if b.k == "c":
            if b.a:
                return TRUE
            continue
        parts = b.a if b.k == "or" else (b,)
        for x in parts:
            k = x.key()
            if k not in seen:
                seen.add(k)
                out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else SBool("or", tuple(out))


def b_eval(b, env, slack=0.0):
    """Numeric truth value (slack > 0 demands robust truth of inequalities)."""
    k = b.k
    if k == "c":
        return b.a
    if k in ("le", "lt", "eq", "ne"):
        v = p_eval(b.a, env)
        if k == "le":
            return v <= -slack
        if k == "lt":
            return v < -slack
        if k == "eq":
            return abs(v) <= 1e-12
        return abs(v) > max(slack, 1e-13)
    if k == "not":
        return not b_eval(b.a, env)
    if k == "and":
        return all(b_eval(x, env, slack) for x in b.a)
    return any(b_eval(x, env, slack) for x in b.a)


# --------------------------------------------------------------------------
# z3 encodings
def _zc(c):
    if isinstance(c, Fraction):
        return z3.RealVal(c)
    return c


def _zval(c):
    return z3.RealVal(str(c)) if not isinstance(c, Fraction) else z3.RealVal(f"{c.numerator}/{c.denominator}")


class Enc:
    """One query's encoding. mode 'lin': monomials are fresh bounded reals;
    mode 'nl': true products."""

    def __init__(self, mode):
        self.mode = mode
        self.monos = {}
        self.extra = []

    def mono(self, m):
        if not m:
            return z3.RealVal(1)
        if len(m) == 1 and m[0][1] == 1:
            a = CTX.atoms[m[0][0]]
            return z3.ToReal(a.z) if a.isint else a.z
        v = self.monos.get(m)
        if v is not None:
            return v
        if self.mode == "lin":
            v = z3.Real("m" + "_".join(f"{a}^{e}" for a, e in m))
            lo, hi = mono_bounds(m)
            if lo != -INF:
                self.extra.append(v >= z3.RealVal(repr(lo - 1e-9 * abs(lo))))
            if hi != INF:
                self.extra.append(v <= z3.RealVal(repr(hi + 1e-9 * abs(hi))))
        else:
            pos = [(a, e) for a, e in m if e > 0]
            neg = [(a, -e) for a, e in m if e < 0]
            v = None
            for a, e in pos:
                z = CTX.atoms[a].z
                z = z3.ToReal(z) if CTX.atoms[a].isint else z
                for _ in range(e):
                    v = z if v is None else v * z
            if neg:
                w = z3.Real("w" + "_".join(f"{a}^{e}" for a, e in m))
                d = None
                for a, e in neg:
                    z = CTX.atoms[a].z
                    z = z3.ToReal(z) if CTX.atoms[a].isint else z
                    for _ in range(e):
                        d = z if d is None else d * z
                self.extra.append(w * d == (v if v is not None else 1))
                self.extra.append(d != 0)
                v = w
        self.monos[m] = v
        return v

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        # pure-integer fast path keeps the query in integer arithmetic
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(_zval(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append(_zval(c) * self.mono(m))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def intpoly(self, p):
        """Integer-sorted encoding if every monomial is integral."""
        atoms = CTX.atoms
        if any(e < 0 or not atoms[a].isint for m in p for a, e in m):
            return None
        if self.mode == "lin" and any(len(m) > 1 or (m and m[0][1] > 1) for m in p):
            return None
        den = 1
        for c in p.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // math.gcd(den, c.denominator)
        ts = []
        for m, c in p.items():
            k = int(c * den)
            t = z3.IntVal(k)
            for a, e in m:
                for _ in range(e):
                    t = t * atoms[a].z
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.IntVal(0))

    def boolean(self, b):
        k = b.k
        if k == "c":
            return z3.BoolVal(b.a)
        if k in ("le", "lt", "eq", "ne"):
            e = self.intpoly(b.a)
            if e is None:
                e = self.poly(b.a)
            return {"le": e <= 0, "lt": e < 0, "eq": e == 0, "ne": e != 0}[k]
        if k == "not":
            return z3.Not(self.boolean(b.a))
        if k == "and":
            return z3.And(*[self.boolean(x) for x in b.a])
        return z3.Or(*[self.boolean(x) for x in b.a])

    def atom_bounds(self, aids):
        out = []
        for aid in sorted(aids):
            a = CTX.atoms[aid]
            if a.lo is not None:
                out.append(a.z >= (int(a.lo) if a.isint else _zval(_exact(a.lo))))
            if a.hi is not None:
                out.append(a.z <= (int(a.hi) if a.isint else _zval(_exact(a.hi))))
            if a.kind in ("cos", "sin"):
                lo, hi = trig_range(a)
                if lo > -1:
                    out.append(a.z >= _zval(lo))
                if hi < 1:
                    out.append(a.z <= _zval(hi))
        return out


def trig_range(a):
    """Enclosure of cos/sin(mono/den) from the interval the path leaves for the angle."""
    mono, den = a.data
    if len(mono) != 1 or mono[0][1] != 1:
        if any(e > 0 and CTX.atoms[i].lo == 0 == CTX.atoms[i].hi for i, e in mono) and all(e > 0 for _, e in mono):
            return (1, 1) if a.kind == "cos" else (0, 0)
        return -1, 1
    x = CTX.atoms[mono[0][0]]
    if x.lo is None or x.hi is None:
        return -1, 1
    lo, hi = _exact(x.lo) / den, _exact(x.hi) / den
    if lo == hi:
        c, s = _hp_cis(lo.numerator, lo.denominator, False)
        v, eps = (c if a.kind == "cos" else s), Fraction(1, 10**40)
        return (v, v) if lo == 0 else (v - eps, v + eps)
    if hi - lo > 3:
        return -1, 1
    f = math.cos if a.kind == "cos" else math.sin
    l, h = float(lo), float(hi)
    off = 0.0 if a.kind == "cos" else math.pi / 2  # maxima at off + 2 k pi, minima half a period later
    top = math.ceil((l - off) / (2 * math.pi) - 1e-12) * 2 * math.pi + off <= h + 1e-12
    bot = math.ceil((l - off - math.pi) / (2 * math.pi) - 1e-12) * 2 * math.pi + off + math.pi <= h + 1e-12
    vs = (f(l), f(h))
    e = 1e-13
    return (-1 if bot else max(Fraction(-1), Fraction(min(vs) - e)), 1 if top else min(Fraction(1), Fraction(max(vs) + e)))


def _exact(v):
    if isinstance(v, (int, Fraction)):
        return v
    return Fraction(repr(float(v)))


def relevant(goal_atoms, sliced=True):
    """Constraints (pc + definitions) transitively sharing atoms with the goal."""
    pc = [(b.atoms(), b) for b in CTX.pc if b.k != "c"]
    seen = set(goal_atoms)
    # derived atoms pull in what they are defined from
    chosen = []
    rest = pc + [(b.atoms() | set(ids), b) for ids, b in CTX.defs]
    if not sliced:
        return [b for _, b in rest], {a.id for a in CTX.atoms}
    changed = True
    while changed:
        changed = False
        nxt = []
        for at, b in rest:
            if at & seen:
                chosen.append(b)
                new = at - seen
                if new:
                    seen |= new
                    changed = True
            else:
                nxt.append((at, b))
        rest = nxt
        for aid in list(seen):
            for d in CTX.atoms[aid].deps:
                if d not in seen:
                    seen.add(d)
                    changed = True
    return chosen, seen


def is_linear(p):
    return all(not m or (len(m) == 1 and m[0][1] == 1) for m in p)


def b_linear(b):
    if b.k == "c":
        return True
    if b.k in ("le", "lt", "eq", "ne"):
        return is_linear(b.a)
    if b.k == "not":
        return b_linear(b.a)
    return all(b_linear(x) for x in b.a)


def solve(goal, timeout=4000, want_model=False, sliced=True, extra=(), stages=("lin", "nl")):
    """Satisfiability of path condition AND goal.

    Returns ('unsat'|'sat'|'unknown', model or None, stage)."""
    goal = to_bool(goal)
    if goal.k == "c" and not goal.a:
        return "unsat", None, "const"
    cons, atoms = relevant(goal.atoms(), sliced)
    for e in extra:
        atoms = atoms | e.atoms()
    lin_all = b_linear(goal) and all(b_linear(b) for b in cons)
    t0 = time.time()
    try:
        if "lin" in stages:
            enc = Enc("lin")
            fs = [enc.boolean(b) for b in cons] + [enc.boolean(goal)] + [enc.boolean(e) for e in extra]
            fs += enc.atom_bounds(atoms) + enc.extra
            s = z3.Solver()
            s.set("timeout", min(timeout, 6000))
            s.add(*fs)
            CTX.nq += 1
            r = s.check()
            if r == z3.unsat:
                return "unsat", None, "lin"
            if lin_all:
                if r == z3.sat:
                    return "sat", (s.model() if want_model else None), "lin"
                if "nl" not in stages:
                    return "unknown", None, "lin"
        if "nl" not in stages:
            return "unknown", None, "lin"
        enc = Enc("nl")
        fs = [enc.boolean(b) for b in cons] + [enc.boolean(goal)] + [enc.boolean(e) for e in extra]
        fs += enc.atom_bounds(atoms) + enc.extra
        hasint = any(CTX.atoms[a].isint for a in atoms)
        if hasint:
            s = z3.Solver()
        else:
            s = z3.Tactic("qfnra").solver()
        s.set("timeout", timeout)
        s.add(*fs)
        CTX.nq += 1
        r = s.check()
        if r == z3.unsat:
            return "unsat", None, "nl"
        if r == z3.sat:
            return "sat", (s.model() if want_model else None), "nl"
        return "unknown", None, "nl"
    except z3.Z3Exception as e:  # resource problems are inconclusive
        CTX.notes.append(f"z3: {e}"[:200])
        return "unknown", None, "exc"
    finally:
        CTX.qtime += time.time() - t0


def branch(b):
    """Decide a symbolic condition, forking when both outcomes are feasible."""
    c = b.const()
    if c is not None:
        return c
    x = CTX
    known = x.poscache.get(b.key())
    if known is not None:
        return known
    if time.time() > x.deadline:
        raise PathLimit("path time limit")
    x.nbranch += 1
    if x.pos < len(x.prefix):
        d = x.prefix[x.pos]
        if not (isinstance(d, tuple) and d[0] == "b"):
            raise Diverged(f"expected {d}, got branch")
        v = d[1]
        x.pos += 1
        x.trace.append(d)
        _commit(b, v)
        return v
    rt, _, _ = solve(b, timeout=1500)
    if rt == "unsat":
        v, forced = False, True
    else:
        rf, _, _ = solve(b_not(b), timeout=1500)
        if rf == "unsat":
            v, forced = True, True
        else:
            v, forced = True, False
            if rt == "unknown" or rf == "unknown":
                x.unknown_feas += 1
    if not forced:
        x.alts.append(list(x.trace) + [("b", False)])
    x.trace.append(("b", v, forced))
    x.pos += 1
    x.prefix.append(x.trace[-1])
    _commit(b, v)
    return v


def _commit(b, v):
    x = CTX
    c = b if v else b_not(b)
    x.pc.append(c)
    x.poscache[b.key()] = v
    x.poscache[b_not(b).key()] = not v
    parts = c.a if c.k == "and" else (c,)
    for q in parts:
        _tighten(q)


def _tighten(q):
    """Turn single-atom linear facts into atom bounds (helps the interval view)."""
    if q.k not in ("le", "lt", "eq"):
        return
    p = q.a
    ms = [m for m in p if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return
    a = CTX.atoms[ms[0][0][0]]
    k = p[ms[0]]
    v = -_exact(p.get(ONE, 0)) / Fraction(k)
    if q.k == "eq" or k > 0:
        w = math.floor(v) if a.isint else v
        if a.isint and q.k == "lt" and w == v:
            w -= 1
        if a.hi is None or w < a.hi:
            a.hi = w
    if q.k == "eq" or k < 0:
        w = math.ceil(v) if a.isint else v
        if a.isint and q.k == "lt" and w == v:
            w += 1
        if a.lo is None or w > a.lo:
            a.lo = w


def choose(n, tag):
    """Fork over n alternatives (no solver)."""
    x = CTX
    if n == 0:
        raise Infeasible("no alternative")
    if n == 1:
        return 0
    if x.pos < len(x.prefix):
        d = x.prefix[x.pos]
        if not (isinstance(d, tuple) and d[0] == "k" and d[2] == n):
            raise Diverged(f"expected {d}, got choice {tag}")
        x.pos += 1
        x.trace.append(d)
        return d[1]
    for i in range(n - 1, 0, -1):
        x.alts.append(list(x.trace) + [("k", i, n)])
    d = ("k", 0, n)
    x.trace.append(d)
    x.prefix.append(d)
    x.pos += 1
    return 0


def assume(b):
    b = to_bool(b)
    if b.k == "c":
        if not b.a:
            raise Infeasible("assume")
        return
    if CTX.poscache.get(b.key()) is True:
        return
    CTX.pc.append(b)
    CTX.poscache[b.key()] = True
    parts = b.a if b.k == "and" else (b,)
    for q in parts:
        CTX.poscache[q.key()] = True
        _tighten(q)


def define(ids, b):
    b = to_bool(b)
    if b.k != "c":
        CTX.defs.append((tuple(ids), b))


def check_feasible():
    r, _, _ = solve(TRUE, sliced=False, timeout=2000)
    return r != "unsat"


# --------------------------------------------------------------------------
def is_sympy(x):
    return type(x).__module__.startswith("sympy") or hasattr(x, "_symx_numatom")


def lift(x):
    """Python/numpy/sympy number -> Num | Cx; None if not a number."""
    if isinstance(x, Sym):
        return x
    t = type(x)
    if t is int or t is bool:
        return INum({ONE: int(x)} if x else {})
    if t is float:
        return Num(p_of_float(x))
    if t is complex:
        return Cx(p_of_float(x.real), p_of_float(x.imag))
    if t is Fraction:
        return Num({ONE: _nc(x)} if x else {})
    if isinstance(x, SBool):
        return INum({ONE: 1} if bool(x) else {})
    import numpy as np

    if isinstance(x, (np.integer, np.bool_)):
        return INum({ONE: int(x)} if x else {})
    if isinstance(x, np.floating):
        return Num(p_of_float(float(x)))
    if isinstance(x, np.complexfloating):
        return Cx(p_of_float(float(x.real)), p_of_float(float(x.imag)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    if isinstance(x, (int, float)):
        return Num(p_of_float(float(x))) if isinstance(x, float) else INum({ONE: int(x)} if x else {})
    if is_sympy(x):
        from . import symp

        return symp.encode(x)
    return None


class Sym:
    """Base class of symbolic numbers."""

    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1000.0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def _arr_elementwise(f, arr, swap=False):
    from . import arr as A

    return A.elementwise(f, arr)


def _binop(name):
    def op(self, other):
        import numpy as np

        if isinstance(other, np.ndarray) and other.ndim > 0:
            return _arr_elementwise(lambda v: getattr_op(name, self, v), other)
        if type(other).__module__.startswith("sympy"):
            from . import symp

            if symp.has_free(other):
                if hasattr(other, "shape"):
                    return NotImplemented
                return symp.sym_op(name, self, other)
            if hasattr(other, "shape") and getattr(other, "shape", ()) != ():
                return NotImplemented
        o = lift(other)
        if o is None:
            return NotImplemented
        return getattr_op(name, self, o)

    def rop(self, other):
        import numpy as np

        if isinstance(other, np.ndarray) and other.ndim > 0:
            return _arr_elementwise(lambda v: getattr_op(name, v, self), other)
        if type(other).__module__.startswith("sympy"):
            from . import symp

            if symp.has_free(other):
                if hasattr(other, "shape"):
                    return NotImplemented
                return symp.sym_op(name, other, self)
        o = lift(other)
        if o is None:
            return NotImplemented
        return getattr_op(name, o, self)

    return op, rop


def getattr_op(name, a, b):
    return OPS[name](lift(a), lift(b))


def mk(re, im, isint=False):
    if im:
        return Cx(re, im)
    return INum(re) if isint else Num(re)


def parts(x):
    return (x.re, x.im) if isinstance(x, Cx) else (x.p, {})


def _cplx(a, b):
    return isinstance(a, Cx) or isinstance(b, Cx)


def _isint(a, b):
    return isinstance(a, INum) and isinstance(b, INum)


def op_add(a, b):
    if _cplx(a, b):
        (ar, ai), (br, bi) = parts(a), parts(b)
        return Cx(p_add(ar, br), p_add(ai, bi))
    r = p_add(a.p, b.p)
    return INum(r) if _isint(a, b) else Num(r)


def op_sub(a, b):
    if _cplx(a, b):
        (ar, ai), (br, bi) = parts(a), parts(b)
        return Cx(p_sub(ar, br), p_sub(ai, bi))
    r = p_sub(a.p, b.p)
    return INum(r) if _isint(a, b) else Num(r)


def op_mul(a, b):
    if _cplx(a, b):
        (ar, ai), (br, bi) = parts(a), parts(b)
        return Cx(p_sub(p_mul(ar, br), p_mul(ai, bi)), p_add(p_mul(ar, bi), p_mul(ai, br)))
    r = p_mul(a.p, b.p)
    return INum(r) if _isint(a, b) else Num(r)


def p_nonzero_inv(p):
    """Inverse of a polynomial assumed nonzero."""
    c = p_const(p)
    if c is not None:
        return {ONE: _nc(Fraction(1) / c)}
    if len(p) == 1:
        (m, c), = p.items()
        inv = tuple((a, -e) for a, e in m)
        r = {inv: _nc(Fraction(1) / c)}
        red = _reduce_mono(inv)
        if red is not None:
            r = p_scale(red, _nc(Fraction(1) / c))
        return r
    # normalise by the leading coefficient so that proportional divisors share
    m0 = min(p)
    lead = p[m0]
    q = p_scale(p, _nc(Fraction(1) / lead))
    key = p_key(q)
    nm = None
    for a in CTX.atoms:
        if a.kind == "inv" and a.data == key:
            nm = a
            break
    if nm is None:
        lo, hi = p_bounds(q)
        nm = CTX.atom(f"inv{len(CTX.atoms)}", kind="inv", data=key)
        if lo > 0:
            nm.lo, nm.hi = (Fraction(0) if hi == INF else _exact(1 / hi * (1 - 1e-9))), _exact(1 / lo * (1 + 1e-9))
        elif lo == 0:
            nm.lo = Fraction(0)
        nm.evalf = lambda env, q=q: 1.0 / p_eval(q, env)
        nm.deps = tuple(p_atoms(q))
        define((nm.id,), SBool("eq", p_sub(p_mul(q, {((nm.id, 1),): 1}), {ONE: 1})))
    return {((nm.id, 1),): _nc(Fraction(1) / lead)}


def p_div(p, q, zerodiv=True):
    c = p_const(q)
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return p_scale(p, _nc(Fraction(1) / c))
    if branch(rel("eq", q)):
        raise ZeroDivisionError("division by zero")
    # exact cancellation p = k q
    if set(p) == set(q):
        m0 = min(q)
        k = Fraction(p[m0]) / q[m0]
        if all(p[m] == k * q[m] for m in q):
            return {ONE: _nc(k)}
    return p_mul(p, p_nonzero_inv(q))


FP_DIV = [False]  # model int/int as correctly rounded floating-point division
FP_FLOAT = [False]  # model float(x) as rounding to the nearest double


def op_truediv(a, b):
    if isinstance(b, Cx):
        if not b.im:
            b = Num(b.re)
        else:
            n2 = p_add(p_mul(b.re, b.re), p_mul(b.im, b.im))
            num = op_mul(a, Cx(b.re, p_neg(b.im)))
            (nr, ni) = parts(num)
            return Cx(p_div(nr, n2), p_div(ni, n2))
    if isinstance(a, Cx):
        return Cx(p_div(a.re, b.p), p_div(a.im, b.p))
    if FP_DIV[0] and _isint(a, b) and not (p_const(a.p) is not None and p_const(b.p) is not None):
        return fp_div(a, b)
    return Num(p_div(a.p, b.p))


def fp_div(a, b):
    """IEEE double nearest to a/b, for integers: r == q when q is an integer of
    magnitude <= 2**53, floor(q) <= r <= ceil(q), |r-q| <= |q| 2**-53."""
    if branch(rel("eq", b.p)):
        raise ZeroDivisionError("division by zero")
    if branch(rel("lt", b.p)):
        return fp_div(INum(p_neg(a.p)), INum(p_neg(b.p)))
    if branch(rel("lt", a.p)):
        return Num(p_neg(fp_div(INum(p_neg(a.p)), b).p))
    x = CTX
    k = len(x.atoms)
    fl = x.atom(f"fdq{k}", 0, None, isint=True, kind="fdq")
    r = x.atom(f"fdr{k}", 0, None, kind="fdr")
    P, Q = a.p, b.p
    F = {((fl.id, 1),): 1}
    R = {((r.id, 1),): 1}

    def ef(env):
        n, d = round(p_eval(P, env)), round(p_eval(Q, env))
        return n // d

    def er(env):
        n, d = round(p_eval(P, env)), round(p_eval(Q, env))
        return n / d

    fl.evalf, r.evalf = ef, er
    fl.deps = r.deps = tuple(p_atoms(P) | p_atoms(Q))
    FQ = p_mul(F, Q)
    rem = p_sub(P, FQ)
    ids = (fl.id, r.id)
    define(ids, SBool("le", p_neg(rem)))
    define(ids, SBool("lt", p_sub(rem, Q)))
    big = SBool("lt", p_sub({ONE: 2**53 - 1}, F))  # the neighbouring integers need not be doubles
    define(ids, b_or(big, SBool("le", p_sub(F, R))))
    define(ids, b_or(big, SBool("le", p_sub(R, p_add(F, {ONE: 1})))))
    define(ids, b_or(big, b_or(SBool("ne", rem), SBool("eq", p_sub(R, F)))))
    e = Fraction(1, 2**53)
    RQ = p_mul(R, Q)
    define(ids, SBool("le", p_sub(p_sub(RQ, P), p_scale(P, e))))
    define(ids, SBool("le", p_sub(p_sub(P, RQ), p_scale(P, e))))
    return Num(R)


def fp_round(a):
    """the double nearest to a: |r-a| <= |a| 2**-53, and r == a for integers of magnitude <= 2**53"""
    if p_const(a.p) is not None:
        return Num(lift(float(p_const(a.p))).p)
    if branch(rel("lt", a.p)):
        return Num(p_neg(fp_round(type(a)(p_neg(a.p))).p))
    x = CTX
    P = a.p
    r = x.atom(f"ffr{len(x.atoms)}", 0, None, kind="fdr")
    R = {((r.id, 1),): 1}
    r.evalf = lambda env: float(p_eval(P, env))
    r.deps = tuple(p_atoms(P))
    e = Fraction(1, 2**53)
    define((r.id,), SBool("le", p_sub(p_sub(R, P), p_scale(P, e))))
    define((r.id,), SBool("le", p_sub(p_sub(P, R), p_scale(P, e))))
    if isinstance(a, INum):
        define((r.id,), b_or(SBool("lt", p_sub({ONE: 2**53}, P)), SBool("eq", p_sub(R, P))))
    return Num(R)


def op_floordiv(a, b):
    if _cplx(a, b):
        raise TypeError("can't take floor of complex number.")
    if p_const(a.p) is not None and p_const(b.p) is not None:
        return lift(Fraction(p_const(a.p)) // Fraction(p_const(b.p)))
    q, _ = int_divmod(a, b)
    return q


def op_mod(a, b):
    if _cplx(a, b):
        raise TypeError("can't mod complex numbers.")
    if p_const(a.p) is not None and p_const(b.p) is not None:
        v = Fraction(p_const(a.p)) % Fraction(p_const(b.p))
        return lift(int(v)) if v.denominator == 1 and _isint(a, b) else lift(v)
    _, r = int_divmod(a, b)
    return r


def int_divmod(a, b):
    if branch(rel("eq", b.p)):
        raise ZeroDivisionError("integer division or modulo by zero")
    x = CTX
    key = ("divmod", p_key(a.p), p_key(b.p))
    got = x.byname.get(key)
    if got is None:
        k = len(x.atoms)
        f = x.atom(f"dq{k}", None, None, isint=True, kind="dq")
        P, Q = a.p, b.p
        f.evalf = lambda env: math.floor(Fraction(_ev(P, env)) / Fraction(_ev(Q, env)))
        f.deps = tuple(p_atoms(P) | p_atoms(Q))
        x.byname[key] = f
        got = f
        F = {((f.id, 1),): 1}
        rem = p_sub(P, p_mul(F, Q))
        pos = branch(rel("lt", p_neg(Q)))
        if pos:
            define((f.id,), SBool("le", p_neg(rem)))
            define((f.id,), SBool("lt", p_sub(rem, Q)))
        else:
            define((f.id,), SBool("le", rem))
            define((f.id,), SBool("lt", p_sub(Q, rem)))
    F = {((got.id, 1),): 1}
    rem = p_sub(a.p, p_mul(F, b.p))
    isint = _isint(a, b)
    return INum(F), (INum(rem) if isint else Num(rem))


def _ev(p, env):
    v = p_eval(p, env)
    return round(v) if abs(v - round(v)) < 1e-12 else v


def op_pow(a, b):
    if not isinstance(b, Cx):
        c = p_const(b.p)
        if c is not None:
            if Fraction(c).denominator == 1:
                n = int(c)
                if n >= 0:
                    r = lift(1)
                    base = a
                    k = n
                    while k:
                        if k & 1:
                            r = op_mul(r, base)
                        k >>= 1
                        if k:
                            base = op_mul(base, base)
                    if isinstance(a, INum) and not isinstance(b, INum):
                        return Num(r.p)
                    return r
                return op_truediv(lift(1), op_pow(a, lift(-n)))
            if CTX.pow_hook is not None:
                return CTX.pow_hook(a, b)
            if not isinstance(a, Cx):
                if Fraction(c).denominator == 2:
                    if p_const(a.p) is None and branch(rel("lt", a.p)):
                        r = Cx({}, Num(p_neg(a.p)).sqrt().p)
                    else:
                        r = a.sqrt()
                    return r if c == Fraction(1, 2) else op_pow(r, lift(int(c * 2)))
        elif CTX.pow_hook is not None:
            return CTX.pow_hook(a, b)
        elif isinstance(b, INum):
            return op_pow(a, lift(int(b)))
        pa = p_const(a.p) if not isinstance(a, Cx) else None
        if pa is not None and pa > 0:
            return op_exp(op_mul(b, lift(math.log(pa))))
    if CTX.pow_hook is not None:
        return CTX.pow_hook(a, b)
    raise Unsupported("power with non-constant exponent")


OPS = {
    "add": op_add, "sub": op_sub, "mul": op_mul, "truediv": op_truediv,
    "floordiv": op_floordiv, "mod": op_mod, "pow": op_pow,
}


def cmp_op(kind):
    def f(self, other):
        import numpy as np

        if isinstance(other, np.ndarray) and other.ndim > 0:
            return _arr_elementwise(lambda v: f(self, v), other)
        if isinstance(other, float) and (other != other or other in (INF, -INF)):
            if other != other:
                return FALSE
            return TRUE if (other > 0) == (kind in ("lt", "le")) else FALSE
        o = lift(other)
        if o is None or isinstance(o, Cx):
            return NotImplemented
        if kind == "lt":
            return rel("lt", p_sub(self.p, o.p))
        if kind == "le":
            return rel("le", p_sub(self.p, o.p))
        if kind == "gt":
            return rel("lt", p_sub(o.p, self.p))
        return rel("le", p_sub(o.p, self.p))

    return f


def eq_op(self, other):
    import numpy as np

    if isinstance(other, np.ndarray) and other.ndim > 0:
        return _arr_elementwise(lambda v: eq_op(self, v), other)
    if isinstance(other, (str, bytes)) or other is None or isinstance(other, (list, tuple, dict, set)):
        return False
    if type(other).__module__.startswith("sympy"):
        from . import symp

        if not isinstance(other, symp.sympy.Expr) or symp.has_free(other):
            return False
    o = lift(other)
    if o is None:
        return NotImplemented
    (ar, ai), (br, bi) = parts(self), parts(o)
    return b_and(rel("eq", p_sub(ar, br)), rel("eq", p_sub(ai, bi)))


def ne_op(self, other):
    r = eq_op(self, other)
    if r is NotImplemented:
        return r
    if isinstance(r, bool):
        return not r
    if isinstance(r, SBool):
        return b_not(r)
    return _arr_elementwise(lambda v: b_not(to_bool(v)), r)


def sym_hash(self):
    """Hash consistent with ==: equal to an earlier hashed value iff the solver
    path says so (forks)."""
    if sys._getframe(1).f_globals.get("__name__") == "sympy.core.cache":
        raise TypeError("unhashable type: symbolic number")  # bypass sympy's global cache
    re, im = parts(self)
    cr, ci = p_const(re), p_const(im)
    if cr is not None and ci is not None:
        return hash(complex(float(cr), float(ci))) if ci else hash(cr)
    k = (p_key(re), p_key(im))
    for kk, h, v in CTX.hashes:
        if kk == k:
            return h
    for kk, h, v in CTX.hashes:
        if bool(to_bool(eq_op(self, v))):
            CTX.hashes.append((k, h, self))
            return h
    h = 7_000_003 + 101 * len(CTX.hashes)
    CTX.hashes.append((k, h, self))
    return h


def p_sqrt(p):
    """Non-negative square root of a polynomial known to be >= 0."""
    c = p_const(p)
    if c is not None:
        f = Fraction(c)
        rn, rd = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if rn * rn == f.numerator and rd * rd == f.denominator:
            return {ONE: _nc(Fraction(rn, rd))} if rn else {}
        if f.numerator * f.denominator < 10**6:
            n = f.numerator * f.denominator
            k = 1
            d = 2
            while d * d <= n:
                while n % (d * d) == 0:
                    n //= d * d
                    k *= d
                d += 1
            if n == 1:
                return {ONE: _nc(Fraction(k, f.denominator))}
            return {((const_atom(f"sqrt{n}").id, 1),): _nc(Fraction(k, f.denominator))}
        return p_of_float(math.sqrt(f))
    key = p_key(p)
    for a in CTX.atoms:
        if a.kind == "sqrt" and a.data == key:
            return {((a.id, 1),): 1}
    lo, hi = p_bounds(p)
    a = CTX.atom(
        f"rt{len(CTX.atoms)}",
        _exact(math.sqrt(max(lo, 0.0)) * (1 - 1e-9)) if lo > 0 else Fraction(0),
        None if hi == INF else _exact(math.sqrt(max(hi, 0.0)) * (1 + 1e-9) + 1e-15),
        kind="sqrt", data=key,
    )
    a.rule = p
    a.evalf = lambda env: math.sqrt(max(p_eval(p, env), 0.0))
    a.deps = tuple(p_atoms(p))
    define((a.id,), SBool("eq", p_sub({((a.id, 2),): 1}, p)))
    return {((a.id, 1),): 1}


def _perfect_square(p):
    """|q| if p == q**2 for a single monomial q."""
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            return {tuple((a, e // 2) for a, e in m): 1}, c
    return None


def p_abs(p):
    c = p_const(p)
    if c is not None:
        return {ONE: abs(c)} if c else {}
    lo, hi = p_bounds(p)
    if lo >= 0:
        return p
    if hi <= 0:
        return p_neg(p)
    for k, v in (("le", True), ("lt", True)):
        if CTX.poscache.get(SBool(k, p_neg(p)).key()):
            return p
        if CTX.poscache.get(SBool(k, p).key()):
            return p_neg(p)
    m0 = min(p)
    q = p if p[m0] > 0 else p_neg(p)
    key = p_key(q)
    for a in CTX.atoms:
        if a.kind == "abs" and a.data == key:
            return {((a.id, 1),): 1}
    mx = max(abs(lo), abs(hi))
    a = CTX.atom(f"ab{len(CTX.atoms)}", Fraction(0), None if mx == INF else _exact(mx * (1 + 1e-9)), kind="abs", data=key)
    a.rule = p_mul(q, q)
    a.evalf = lambda env: abs(p_eval(q, env))
    a.deps = tuple(p_atoms(q))
    A = {((a.id, 1),): 1}
    define((a.id,), SBool("le", p_sub(q, A)))
    define((a.id,), SBool("le", p_sub(p_neg(q), A)))
    define((a.id,), b_or(SBool("eq", p_sub(q, A)), SBool("eq", p_add(q, A))))
    return A


def c_abs(re, im):
    if not im:
        return p_abs(re)
    if not re:
        return p_abs(im)
    n2 = p_add(p_mul(re, re), p_mul(im, im))
    new = p_const(n2) is None and not any(a.kind == "sqrt" and a.data == p_key(n2) for a in CTX.atoms)
    r = p_sqrt(n2)
    if new and len(r) == 1:
        (m, c), = r.items()
        if len(m) == 1 and CTX.atoms[m[0][0]].kind == "sqrt":
            aid = m[0][0]
            for q in (re, im):
                define((aid,), SBool("le", p_sub(q, r)))
                define((aid,), SBool("le", p_sub(p_neg(q), r)))
            # r <= |re| + |im|
            s = p_add(p_abs(re), p_abs(im))
            define((aid,), SBool("le", p_sub(r, s)))
    return r


# --- trigonometry -------------------------------------------------------------
_DEFAULT_DEN = 2


def cis_atoms(mono):
    """Atoms (c, s) of cos/sin(mono/den)."""
    x = CTX
    name = ".".join(f"{x.atoms[a].name}^{e}" for a, e in mono)
    den = x.dens.get(name, _DEFAULT_DEN)
    c = x.byname.get(("cos", name))
    if c is None:
        c = x.atom(f"cos({name}/{den})", Fraction(-1), Fraction(1), kind="cos", data=(mono, den))
        s = x.atom(f"sin({name}/{den})", Fraction(-1), Fraction(1), kind="sin", data=(mono, den))
        x.byname[("cos", name)] = c
        x.byname[("sin", name)] = s
        s.rule = {ONE: 1, ((c.id, 2),): -1}
        mp = {mono: 1}
        c.evalf = lambda env: math.cos(p_eval(mp, env) / den)
        s.evalf = lambda env: math.sin(p_eval(mp, env) / den)
        x.defs.append(((c.id, s.id), SBool("eq", {((c.id, 2),): 1, ((s.id, 2),): 1, ONE: -1})))
    return c, x.byname[("sin", name)], den, name


def p_cis(p):
    """(cos p, sin p) for a polynomial p."""
    re, im = {ONE: 1}, {}
    x = CTX
    for m, k in sorted(p.items()):
        if not m:
            r, i = _cis_const(k)
        elif m == ((const_atom("pi").id, 1),):
            r, i = _cis_pi(Fraction(k))
        else:
            c, s, den, name = cis_atoms(m)
            kk = Fraction(k) * den
            if kk.denominator != 1:
                if abs(kk.numerator) > 10**4 or kk.denominator > 64:
                    raise Unsupported(f"angle multiple {k}")
                raise NeedDen(name, den * kk.denominator)
            n = int(kk)
            if abs(n) > 64:
                raise Unsupported(f"angle multiple {k}")
            r, i = {ONE: 1}, {}
            br, bi = {((c.id, 1),): 1}, {((s.id, 1),): 1 if n >= 0 else -1}
            n = abs(n)
            while n:
                if n & 1:
                    r, i = p_sub(p_mul(r, br), p_mul(i, bi)), p_add(p_mul(r, bi), p_mul(i, br))
                n >>= 1
                if n:
                    br, bi = p_sub(p_mul(br, br), p_mul(bi, bi)), p_scale(p_mul(br, bi), 2)
        re, im = p_sub(p_mul(re, r), p_mul(im, i)), p_add(p_mul(re, i), p_mul(im, r))
    return re, im


def _rat(v):
    return {ONE: _nc(v)} if v else {}


@lru_cache(maxsize=10000)
def _hp_cis(num, den, pi):
    import mpmath

    with mpmath.workdps(50):
        a = mpmath.mpf(num) / den * (mpmath.pi if pi else 1)
        c, s = mpmath.cos(a), mpmath.sin(a)
        return Fraction(int(c * 10**45), 10**45), Fraction(int(s * 10**45), 10**45)


def _cis_const(k):
    k = Fraction(k)
    c, s = _hp_cis(k.numerator, k.denominator, False)
    return _rat(c), _rat(s)


def _cis_pi(k):
    k = k % 2
    d = k.denominator
    if d == 1:
        return ({ONE: 1 if k == 0 else -1}, {})
    if d == 2:
        return ({}, {ONE: 1 if k == Fraction(1, 2) else -1})
    if d in (3, 4, 6):
        def alg(v):
            n = round(abs(v) * abs(v) * 4)  # value**2*4 in {0,1,2,3,4}
            sg = 1 if v > 0 else -1
            if n == 0:
                return {}
            if n == 4:
                return {ONE: sg}
            if n == 1:
                return {ONE: Fraction(sg, 2)}
            return {((const_atom(f"sqrt{n}").id, 1),): Fraction(sg, 2)}

        a = float(k) * math.pi
        cv, sv = math.cos(a), math.sin(a)
        return alg(cv if abs(cv) > 1e-9 else 0), alg(sv if abs(sv) > 1e-9 else 0)
    c, s = _hp_cis(k.numerator, k.denominator, True)
    return _rat(c), _rat(s)


def exp_atom(mono):
    x = CTX
    name = ".".join(f"{x.atoms[a].name}^{e}" for a, e in mono)
    den = x.dens.get("exp:" + name, 1)
    e = x.byname.get(("exp", name))
    if e is None:
        lo, hi = mono_bounds(mono)
        e = x.atom(f"exp({name}/{den})",
                   Fraction(0) if lo == -INF else _exact(math.exp(max(lo, -700) / den) * (1 - 1e-9)),
                   None if hi == INF or hi > 600 else _exact(math.exp(hi / den) * (1 + 1e-9)), kind="exp", data=(mono, den))
        x.byname[("exp", name)] = e
        mp = {mono: 1}
        e.evalf = lambda env: math.exp(p_eval(mp, env) / den)
        define((e.id,), SBool("lt", {((e.id, 1),): -1}))
    return e, den, name


def p_exp(p):
    r = {ONE: 1}
    for m, k in sorted(p.items()):
        if not m:
            import mpmath

            with mpmath.workdps(40):
                v = mpmath.exp(mpmath.mpf(Fraction(k).numerator) / Fraction(k).denominator)
                r = p_scale(r, Fraction(int(v * 10**35), 10**35))
        else:
            e, den, name = exp_atom(m)
            kk = Fraction(k) * den
            if kk.denominator != 1:
                raise NeedDen("exp:" + name, den * kk.denominator)
            r = p_mul(r, {((e.id, int(kk)),): 1})
    return r


def op_exp(x):
    x = lift(x)
    if isinstance(x, Cx):
        c, s = p_cis(x.im)
        if x.re:
            e = p_exp(x.re)
            c, s = p_mul(e, c), p_mul(e, s)
        return Cx(c, s)
    return Num(p_exp(x.p))


def op_log(x):
    x = lift(x)
    if isinstance(x, Cx):
        raise Unsupported("complex log")
    c = p_const(x.p)
    if c is not None:
        if c <= 0:
            raise ValueError("math domain error")
        r = lift(math.log(c))
        _log_order(x.p, r)
        return r
    if branch(rel("le", x.p)):
        raise ValueError("math domain error")
    p = x.p
    key = p_key(p)
    for a in CTX.atoms:
        if a.kind == "log" and a.data == key:
            return Num({((a.id, 1),): 1})
    lo, hi = p_bounds(p)
    a = CTX.atom(f"log{len(CTX.atoms)}",
                 _exact(math.log(lo) - 1e-9) if lo > 0 else None,
                 _exact(math.log(hi) + 1e-9) if 0 < hi < INF else None, kind="log", data=key)
    a.evalf = lambda env: math.log(max(p_eval(p, env), 1e-300))
    a.deps = tuple(p_atoms(p))
    r = Num({((a.id, 1),): 1})
    _log_order(p, r)
    return r


def _log_order(p, r):
    """log is increasing (and a function): relate the new value to those already taken"""
    if not CTX.log_order:
        return
    k = p_key(p)
    if any(k == p_key(q) for q, _ in CTX.logs):
        return
    for q, s in CTX.logs:
        d = p_sub(p, q)
        if p_const(d) is not None:
            continue
        assume(b_or(rel("lt", d), rel("le", p_sub(s.p, r.p))))  # p >= q  ->  r >= s
        assume(b_or(rel("lt", p_sub(q, p)), rel("le", p_sub(r.p, s.p))))
    CTX.logs.append((p, r))


def round_atom(p, mode):
    """Integer atom for floor / ceil / round-half-even of p."""
    c = p_const(p)
    if c is not None:
        f = Fraction(c)
        return INum(_rat({"floor": math.floor, "ceil": math.ceil, "round": round}[mode](f)))
    key = (mode, p_key(p))
    for a in CTX.atoms:
        if a.kind == "rnd" and a.data == key:
            return INum({((a.id, 1),): 1})
    lo, hi = p_bounds(p)
    a = CTX.atom(f"{mode}{len(CTX.atoms)}", None if lo == -INF else math.floor(lo) - 1,
                 None if hi == INF else math.ceil(hi) + 1, isint=True, kind="rnd", data=key)
    A = {((a.id, 1),): 1}
    fn = {"floor": math.floor, "ceil": math.ceil, "round": round}[mode]
    a.evalf = lambda env: fn(_ev(p, env))
    a.deps = tuple(p_atoms(p))
    d = p_sub(p, A)  # p - a
    if mode == "floor":
        define((a.id,), SBool("le", p_neg(d)))
        define((a.id,), SBool("lt", p_sub(d, {ONE: 1})))
    elif mode == "ceil":
        define((a.id,), SBool("le", d))
        define((a.id,), SBool("lt", p_sub(p_neg(d), {ONE: 1})))
    else:
        h = {ONE: Fraction(1, 2)}
        define((a.id,), SBool("le", p_sub(d, h)))
        define((a.id,), SBool("le", p_sub(p_neg(d), h)))
        # ties go to even: a tie forces a even, i.e. a = 2b
        b = CTX.atom(f"rhalf{len(CTX.atoms)}", None, None, isint=True, kind="rhalf")
        b.evalf = lambda env: fn(_ev(p, env)) // 2
        b.deps = a.deps
        B = {((b.id, 1),): 2}
        tie = b_or(SBool("eq", p_sub(d, h)), SBool("eq", p_add(d, h)))
        define((a.id, b.id), b_or(b_not(tie), SBool("eq", p_sub(A, B))))
    return INum(A)


class Num(Sym):
    """Symbolic real number."""

    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return INum({}) if isinstance(self, INum) else Num({})

    def conjugate(self):
        return self

    conj = conjugate

    def is_integer(self):
        r = round_atom(self.p, "floor")
        return bool(rel("eq", p_sub(self.p, r.p)))

    @property
    def is_real(self):
        return True

    def __pos__(self):
        return self

    def __neg__(self):
        return type(self)(p_neg(self.p))

    def __abs__(self):
        return type(self)(p_abs(self.p))

    def __bool__(self):
        return branch(rel("ne", self.p))

    def _cval(self):
        return p_const(self.p)

    def __float__(self):
        c = p_const(self.p)
        if c is None:
            if all(CTX.atoms[a].kind in ("sqrtc", "pi") for a in p_atoms(self.p)):
                return p_eval(self.p, {})
            from . import tokens

            return tokens.c_float(self)
        return float(c)

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        return trunc_int(self)

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            r = round_atom(self.p, "round")
            return r if nd is None else Num(r.p)
        k = 10**nd if nd > 0 else Fraction(1, 10**-nd)
        r = round_atom(p_scale(self.p, k), "round")
        return Num(p_scale(r.p, Fraction(1) / k))

    def __floor__(self):
        return round_atom(self.p, "floor")

    def __ceil__(self):
        return round_atom(self.p, "ceil")

    def __trunc__(self):
        return trunc_sym(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def sqrt(self):
        c = p_const(self.p)
        if c is None:
            if branch(rel("lt", self.p)):
                raise ValueError("math domain error")
            return Num(p_sqrt(self.p))
        if c < 0:
            raise ValueError("math domain error")
        return Num(p_sqrt(self.p))

    def exp(self):
        return op_exp(self)

    def log(self):
        return op_log(self)

    def log2(self):
        return op_log(self) / lift(math.log(2))

    def cos(self):
        return Num(p_cis(self.p)[0])

    def sin(self):
        return Num(p_cis(self.p)[1])

    def tan(self):
        c, s = p_cis(self.p)
        return Num(p_div(s, c))

    def floor(self):
        return Num(round_atom(self.p, "floor").p)

    def ceil(self):
        return Num(round_atom(self.p, "ceil").p)

    def rint(self):
        return Num(round_atom(self.p, "round").p)

    def square(self):
        return self * self

    def isnan(self):
        return False

    def _sympy_(self):
        from . import symp

        return symp.to_sympy(self)

    def as_integer_ratio(self):
        c = p_const(self.p)
        if c is None:
            raise Unsupported("as_integer_ratio")
        return Fraction(c).as_integer_ratio()

    def __str__(self):
        from . import tokens

        return tokens.text(self)

    __repr__ = __str__

    def __format__(self, spec):
        from . import tokens

        return tokens.text(self, spec)

    __hash__ = sym_hash
    __eq__ = eq_op
    __ne__ = ne_op
    __lt__ = cmp_op("lt")
    __le__ = cmp_op("le")
    __gt__ = cmp_op("gt")
    __ge__ = cmp_op("ge")


class INum(Num):
    """Symbolic integer."""

    __slots__ = ()

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __invert__(self):
        return -self - 1

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        return concretize(self).bit_length()

    def __rshift__(self, k):
        return self // (1 << int(k))

    def __lshift__(self, k):
        return self * (1 << int(k))

    def __and__(self, k):
        return concretize(self) & int(k)

    def __rand__(self, k):
        return int(k) & concretize(self)

    def __or__(self, k):
        return concretize(self) | int(k)

    def __xor__(self, k):
        return concretize(self) ^ int(k)


MAX_CONC = 130


def concretize(x):
    """Concrete Python int by exhaustive forking over the feasible values."""
    c = p_const(x.p)
    if c is not None:
        return int(c)
    y = CTX
    if y.pos < len(y.prefix):
        d = y.prefix[y.pos]
        if not (isinstance(d, tuple) and d[0] == "i"):
            raise Diverged("expected integer decision")
        y.pos += 1
        y.trace.append(d)
        assume(rel("eq", p_sub(x.p, _rat(d[1]))))
        return d[1]
    # enumerate feasible values
    vals = []
    excl = []
    for _ in range(MAX_CONC + 1):
        r, m = _model_value(x, excl)
        if r == "unsat":
            break
        if r != "sat":
            raise Unsupported("cannot enumerate integer values")
        vals.append(m)
        excl.append(rel("ne", p_sub(x.p, _rat(m))))
    else:
        raise PathLimit("too many integer values")
    if not vals:
        raise Infeasible("no integer value")
    vals.sort()
    for v in reversed(vals[1:]):
        y.alts.append(list(y.trace) + [("i", v)])
    d = ("i", vals[0])
    y.trace.append(d)
    y.prefix.append(d)
    y.pos += 1
    assume(rel("eq", p_sub(x.p, _rat(vals[0]))))
    return vals[0]


def _model_value(x, excl):
    aux = CTX.byname.get("__aux")
    if aux is None:
        aux = CTX.atom("__aux", None, None, isint=True, kind="aux")
    g = b_and(SBool("eq", p_sub(x.p, {((aux.id, 1),): 1})), *excl)
    r, m, _ = solve(g, want_model=True, timeout=4000)
    if r != "sat":
        return r, None
    return "sat", m.eval(aux.z, model_completion=True).as_long()


def trunc_sym(x):
    c = p_const(x.p)
    if c is not None:
        return INum(_rat(int(c)))
    if isinstance(x, INum):
        return x
    if branch(rel("lt", x.p)):
        return -round_atom(p_neg(x.p), "floor")
    return round_atom(x.p, "floor")


def trunc_int(x):
    return concretize(trunc_sym(x))


class Cx(Sym):
    """Symbolic complex number."""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self):
        return Num(self.re)

    @property
    def imag(self):
        return Num(self.im)

    def conjugate(self):
        return Cx(self.re, p_neg(self.im))

    conj = conjugate

    def __pos__(self):
        return self

    def __neg__(self):
        return Cx(p_neg(self.re), p_neg(self.im))

    def __abs__(self):
        return Num(c_abs(self.re, self.im))

    def __bool__(self):
        return branch(b_or(rel("ne", self.re), rel("ne", self.im)))

    def __complex__(self):
        return complex(float(Num(self.re)), float(Num(self.im)))

    def __float__(self):
        raise TypeError("can't convert complex to float")

    def __int__(self):
        raise TypeError("can't convert complex to int")

    def exp(self):
        return op_exp(self)

    def square(self):
        return self * self

    def isnan(self):
        return False

    def _sympy_(self):
        from . import symp

        return symp.to_sympy(self)

    def __str__(self):
        from . import tokens

        return tokens.text(self)

    __repr__ = __str__

    def __format__(self, spec):
        from . import tokens

        return tokens.text(self, spec)

    def _noorder(self, other):
        raise TypeError("'<' not supported between instances of 'complex' and 'complex'")

    __lt__ = __le__ = __gt__ = __ge__ = _noorder
    __hash__ = sym_hash
    __eq__ = eq_op
    __ne__ = ne_op


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    _o, _r = _binop(_n)
    for _c in (Num, Cx):
        setattr(_c, f"__{_n}__", _o)
        setattr(_c, f"__r{_n}__", _r)

numbers.Complex.register(Cx)
numbers.Real.register(Num)
numbers.Integral.register(INum)


# --------------------------------------------------------------------------
# inputs
def new_real(name, lo, hi):
    a = CTX.atom(name, _exact(lo) if lo is not None else None, _exact(hi) if hi is not None else None)
    CTX.inputs[name] = ("real", a.id)
    return Num({((a.id, 1),): 1})


def new_int(name, lo, hi):
    a = CTX.atom(name, lo, hi, isint=True)
    CTX.inputs[name] = ("int", a.id)
    return INum({((a.id, 1),): 1})


# --------------------------------------------------------------------------
# closeness
def close_goal(pairs, tol):
    """SBool: some pair differs by more than tol (componentwise)."""
    t = {ONE: _exact(tol)}
    ds = []
    for a, b in pairs:
        d = op_sub(lift(a), lift(b))
        for p in parts(d):
            if p:
                ds.append(rel("lt", p_add(p_neg(p), t)))  # p > tol
                ds.append(rel("lt", p_add(p, t)))  # p < -tol
    return b_or(*ds) if ds else FALSE


def within(a, b, tol):
    """SBool: componentwise |a-b| <= tol."""
    return b_not(close_goal([(a, b)], tol))


def isclose(a, b, rtol=1e-5, atol=1e-8):
    """numpy.isclose semantics over exact reals: |a-b| <= atol + rtol*|b|."""
    a, b = lift(a), lift(b)
    d = op_sub(a, b)
    dr, di = parts(d)
    if not dr and not di:
        return TRUE
    A = c_abs(dr, di)
    bound = {ONE: _exact(float(atol))} if atol else {}
    br, bi = parts(b)
    if rtol and (br or bi):
        bound = p_add(bound, p_scale(c_abs(br, bi), _exact(float(rtol))))
    return rel("le", p_sub(A, bound))
