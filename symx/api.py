"""The scenario API.  A scenario is a function h(S) that builds inputs through S,
calls the real code and states obligations through S.  The same function runs
symbolically (class S, instrumented modules) and concretely (class CS, untouched
modules, used to replay counterexamples and witnesses)."""
import itertools
import math
import os
import random
import shutil
import tempfile
from fractions import Fraction

import numpy as np
import sympy

from . import core

CUR = None  # current S / CS (used by the RNG stub)

TOL = 1e-9  # symbolic tolerance
CTOL = 2e-7  # tolerance of the concrete replay


class Scenario:
    def __init__(self, fn, name, tiers, budget, weight, paths):
        self.fn, self.name, self.tiers, self.budget, self.weight, self.paths = fn, name, tiers, budget, weight, paths


REG = []


def scenario(tiers=("quick", "thorough"), budget=None, weight=1.0, paths=None, name=None):
    def deco(fn):
        REG.append(Scenario(fn, name or fn.__name__, tiers, budget, weight, paths))
        return fn

    return deco


class Caught:
    def __init__(self, exc):
        self.exc = exc

    def isa(self, *types):
        return isinstance(self.exc, types)

    def __repr__(self):
        return f"{type(self.exc).__name__}: {str(self.exc)[:200]}"


class Base:
    symbolic = False
    tier = "quick"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def __init__(self):
        self._tmp = None
        self._nsym = 0

    # files live in a scratch directory that the path owns
    def tmp(self, name):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="symx_")
        return os.path.join(self._tmp, name)

    def close_tmp(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def catch(self, fn, *a, **k):
        """(value) or Caught(exception)."""
        try:
            return fn(*a, **k)
        except Exception as e:
            return Caught(e)

    def symbol(self, name):
        return sympy.Symbol(name)

    def flag(self, name):
        return self.choice(name, [False, True])

    def cplx(self, name, b=4):
        return self._mkc(self.real(name + ".re", -b, b), self.real(name + ".im", -b, b))

    def reals(self, name, n, lo=-4, hi=4):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def cplxs(self, name, n, b=4):
        return [self.cplx(f"{name}{i}", b) for i in range(n)]

    def matrix(self, name, n, b=2):
        """n x n sympy matrix of symbolic complex *numbers*."""
        return sympy.Matrix(n, n, lambda i, j: self.number(self.cplx(f"{name}{i}{j}", b)))

    def subset(self, name, xs):
        return [x for i, x in enumerate(xs) if self.flag(f"{name}{i}")]

    def raises(self, label, excs, fn, *a, **k):
        r = self.catch(fn, *a, **k)
        self.check(isinstance(r, Caught) and r.isa(*excs), label)

    def fail(self, label, key=None, info=None):
        self.check(False, label, key=key, info=info)


# --------------------------------------------------------------------------
class Candidate(dict):
    pass


class S(Base):
    """Symbolic mode."""

    symbolic = True

    def __init__(self, tier, known=()):
        super().__init__()
        self.tier = tier
        self.obligations = 0
        self.discharged = 0
        self.candidates = []
        self.inconclusive = []
        self.values = {}  # choices
        self.rng = []
        self.samplers = []  # functions(env, rng): joint samplers
        self.stages = {}
        self.stop_after = 6

    # ---- inputs
    def real(self, name, lo=-4, hi=4, den=None):
        if den is not None:
            core.CTX.dens.setdefault(name + "^1", den)
        return core.new_real(name, lo, hi)

    def int(self, name, lo, hi):
        return core.new_int(name, lo, hi)

    def _mkc(self, re, im):
        return core.Cx(core.lift(re).p, core.lift(im).p)

    def choice(self, name, options):
        options = list(options)
        i = core.choose(len(options), name)
        self.values[name] = i
        return options[i]

    def pick(self, name, n):
        return self.choice(name, list(range(n)))

    def unit(self, name, n, cplx=True):
        """n amplitudes with sum |a|^2 = 1."""
        comps = []
        for i in range(n):
            comps.append(f"{name}{i}.re")
            if cplx:
                comps.append(f"{name}{i}.im")
        nums = [core.new_real(c, -1, 1) for c in comps]
        # the last component is eliminated through its square
        atoms = [core.CTX.byname[c] for c in comps]
        last = atoms[0]
        rule = {core.ONE: 1}
        for a in atoms[1:]:
            rule[((a.id, 2),)] = -1
        last.rule = rule
        ids = tuple(a.id for a in atoms)
        full = {((a.id, 2),): 1 for a in atoms}
        full[core.ONE] = -1
        core.define(ids[:1], core.SBool("eq", full))

        def sample(env, rng):
            v = [rng.gauss(0, 1) for _ in ids]
            if rng.random() < 0.3:
                v = [x if rng.random() < 0.5 else 0.0 for x in v]
                if not any(v):
                    v[rng.randrange(len(v))] = 1.0
            s = math.sqrt(sum(x * x for x in v))
            for a, x in zip(ids, v):
                env[a] = x / s

        self.samplers.append((ids, sample))
        if not cplx:
            return nums
        return [self._mkc(nums[2 * i], nums[2 * i + 1]) for i in range(n)]

    def number(self, x):
        """A symbolic number as a sympy object (what a Float would be)."""
        return sympy.sympify(x)

    # ---- conditions
    def assume(self, cond):
        core.assume(cond)

    def all(self, *cs):
        return core.b_and(*[core.to_bool(c) for c in cs])

    def any(self, *cs):
        return core.b_or(*[core.to_bool(c) for c in cs])

    def no(self, c):
        return core.b_not(core.to_bool(c))

    def eq(self, a, b):
        return core.eq_op(core.lift(a), core.lift(b))

    def truth(self, c):
        """Fork on a condition."""
        return bool(c)

    # ---- obligations
    def check(self, cond, label, key=None, info=None, margin=None):
        cond = core.to_bool(cond)
        self.obligations += 1
        self._discharge([core.b_not(cond)] if margin is None else [core.to_bool(margin), core.b_not(cond)], label, key, info)

    def close(self, a, b, label, tol=TOL, key=None, info=None):
        self.close_all([(a, b)], label, tol, key, info)

    def close_all(self, pairs, label, tol=TOL, key=None, info=None):
        self.obligations += 1
        pairs = list(pairs)
        goal = core.close_goal(pairs, tol)
        big = core.close_goal(pairs, max(1e-3, 10 * tol)) if goal is not core.FALSE else core.FALSE
        self._discharge([big, goal], label, key, info, first=goal)

    def close_mat(self, A, B, label, tol=TOL, key=None, info=None):
        A, B = self.arr(A), self.arr(B)
        if A.shape != B.shape:
            self.check(False, label + f" (shape {A.shape} vs {B.shape})", key=key, info=info)
            return
        self.close_all(zip(A.reshape(-1), B.reshape(-1)), label, tol, key, info)

    def _discharge(self, goals, label, key, info, first=None):
        goal = first if first is not None else goals[-1]
        r, _, st = core.solve(goal, timeout=4000, stages=("lin", "nl") if goal.k == "c" else ("lin",))
        if r != "unsat":
            r, _, st = core.solve(goal, timeout=5000)
        self.stages[st] = self.stages.get(st, 0) + 1
        if r == "unsat":
            self.discharged += 1
            return
        env = None
        for g in goals:
            if g.k == "c" and not g.a:
                continue
            env = self.find_point(g)
            if env is not None:
                break
        if env is None:
            self.inconclusive.append((label, f"{r}: no concrete point found"))
            return
        self.candidates.append(self.pack(label, key, env, r, info))
        if len(self.candidates) >= self.stop_after:
            raise core.PathLimit("many candidates")

    # ---- witnesses
    def pack(self, label, key, env, verdict, info=None):
        vals = {}
        for name, (kind, aid) in core.CTX.inputs.items():
            v = env.get(aid)
            if v is None:
                v = _default(core.CTX.atoms[aid])
            vals[name] = int(round(v)) if kind == "int" else float(v)
        return dict(label=label, key=key, values=vals, choices=dict(self.values), rng=list(self.rng),
                    verdict=verdict, info=repr(info)[:300] if info is not None else None)

    def find_point(self, goal, tries=400, solver=True):
        """Concrete input values satisfying path condition and goal, or None."""
        c = core.CTX
        cons = [b for b in c.pc if b.k != "c"]
        rng = random.Random(12345 + len(cons))
        if solver:
            r, m, _ = core.solve(goal, timeout=5000, want_model=True, sliced=False)
            if r == "unsat":
                return None
            if r == "sat" and m is not None:
                env = self._env_from_model(m, rng)
                if env is not None:
                    ok = self._holds(cons, goal, dict(env), 0.0)
                    if ok:
                        return env
                    modelenv = env
                else:
                    modelenv = None
            else:
                modelenv = None
        else:
            modelenv = None
        for slack in (1e-6, 0.0):
            for t in range(tries):
                env = self._sample(rng, modelenv if t % 3 == 0 else None)
                try:
                    if self._holds(cons, goal, env, slack):
                        return env
                except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                    continue
        # a solver model that evaluates false only because of rounding
        if modelenv is not None:
            return modelenv
        return None

    def _holds(self, cons, goal, env, slack):
        try:
            return core.b_eval(goal, env, slack) and all(core.b_eval(b, env, 0.0) for b in cons)
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            return False

    def _env_from_model(self, m, rng):
        c = core.CTX
        env = {}
        trig = {}
        known = {}
        for a in c.atoms:
            d = m.eval(a.z, model_completion=False)
            v = _z3num(d)
            if v is not None:
                known[a.id] = v
        for name, (kind, aid) in c.inputs.items():
            if aid in known:
                env[aid] = known[aid]
        # angles of inputs that occur only inside sin/cos
        for a in c.atoms:
            if a.kind == "cos":
                mono, den = a.data
                s = c.byname[("sin", [k for k, v in c.byname.items() if v is a and isinstance(k, tuple)][0][1])]
                if a.id in known and s.id in known:
                    ang = den * math.atan2(float(known[s.id]), float(known[a.id]))
                    free = [x for x, e in mono if x not in env and e == 1]
                    if free:
                        rest = 1.0
                        for x, e in mono:
                            if x == free[0]:
                                continue
                            if x not in env:
                                env[x] = 1.0
                            rest *= float(env[x]) ** e
                        if rest:
                            v = ang / rest
                            at = c.atoms[free[0]]
                            per = 2 * math.pi * den / rest
                            if at.hi is not None and v > at.hi:
                                v -= abs(per)
                            if at.lo is not None and v < at.lo:
                                v += abs(per)
                            env[free[0]] = v
        fixed = {aid for aid in env}
        for ids, smp in self.samplers:
            if not any(i in fixed for i in ids):
                smp(env, rng)
            else:
                for i in ids:
                    env.setdefault(i, 0.0)
        for name, (kind, aid) in c.inputs.items():
            if aid not in env:
                env[aid] = self._sample_atom(c.atoms[aid], rng)
        return env

    def _sample_atom(self, a, rng):
        lo = float(a.lo) if a.lo is not None else -1e6
        hi = float(a.hi) if a.hi is not None else 1e6
        if a.isint:
            lo, hi = int(lo), int(hi)
            r = rng.random()
            if r < 0.2:
                return lo
            if r < 0.4:
                return hi
            if r < 0.7:
                return rng.randint(max(lo, -5) if lo <= 5 else lo, min(hi, 12) if hi >= 12 or hi > max(lo, -5) else hi) \
                    if max(lo, -5) <= min(hi, 12) else rng.randint(lo, hi)
            return rng.randint(lo, hi)
        r = rng.random()
        if r < 0.12:
            cand = [v for v in (0.0, 1.0, -1.0, 0.5, math.pi / 2, math.pi, -math.pi / 2, 2.0) if lo <= v <= hi]
            if cand:
                return rng.choice(cand)
        if r < 0.2:
            return rng.choice([lo, hi])
        return rng.uniform(lo, hi)

    def _sample(self, rng, base=None):
        c = core.CTX
        env = {}
        if base is not None:
            for name, (kind, aid) in c.inputs.items():
                if aid in base and rng.random() < 0.7:
                    env[aid] = base[aid]
        for ids, smp in self.samplers:
            smp(env, rng)
        done = {i for ids, _ in self.samplers for i in ids}
        for name, (kind, aid) in c.inputs.items():
            if aid in done or aid in env:
                continue
            env[aid] = self._sample_atom(c.atoms[aid], rng)
        return env

    # ---- randomness contract
    def rng_choice(self, a, size, replace, p):
        if isinstance(a, (int, core.INum)):
            a = list(range(int(a)))
        elif isinstance(a, np.ndarray) and a.ndim == 1:
            a = [a[i] for i in range(len(a))]
        else:
            a = list(a)
        P = None
        if p is not None:
            P = list(np.asarray(p, dtype=object).reshape(-1))
            if len(P) != len(a):
                raise ValueError("'a' and 'p' must have same size")
            tot = core.lift(0)
            for x in P:
                if bool(core.lift(x) < 0):
                    raise ValueError("probabilities are not non-negative")
                tot = tot + x
            if not bool(core.isclose(tot, 1, 0, 1.5e-8)):
                raise ValueError("probabilities do not sum to 1")
        n = 1 if size is None else int(size)
        if len(a) == 0 and n > 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if not replace and n > len(a):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        idx = list(range(len(a)))
        out = []
        full = getattr(self, "rng_free", 3)  # arbitrary draws up to this many, later draws repeat draw 0
        for d in range(n):
            if d >= full and replace and out:
                out.append(out[0])
                continue
            cand = idx if replace else [i for i in idx if i not in out]
            if P is not None:
                cand = [i for i in cand if core.p_const(core.lift(P[i]).p) != 0]
            i = cand[core.choose(len(cand), "rng")]
            if P is not None:
                self.assume_feasible(core.lift(P[i]) > 0)
            out.append(i)
        self.rng.append(list(out))
        res = [a[i] for i in out]
        if size is None:
            return res[0]
        if all(isinstance(r, str) for r in res):
            return np.array(res)
        o = np.empty(n, dtype=object)
        for i, r in enumerate(res):
            o[i] = r
        if all(isinstance(r, (int, np.integer)) and not isinstance(r, bool) for r in res):
            return np.array(res)
        return o

    def rng_multinomial(self, n, pvals):
        P = list(np.asarray(pvals, dtype=object).reshape(-1))
        left = int(n)
        out = []
        for i, x in enumerate(P):
            if i == len(P) - 1:
                k = left
            else:
                k = core.choose(left + 1, "multinomial")
            if k:
                self.assume_feasible(core.lift(x) > 0)
            out.append(k)
            left -= k
        self.rng.append(list(out))
        return np.array(out)

    def assume_feasible(self, cond):
        cond = core.to_bool(cond)
        r, _, _ = core.solve(cond, timeout=1500)
        if r == "unsat":
            raise core.Infeasible("rng")
        core.assume(cond)

    # ---- matrices
    def arr(self, x):
        from . import arr as A
        from . import symp

        if isinstance(x, np.ndarray):
            return x
        if isinstance(x, (sympy.MatrixBase,)):
            return A.vmap(lambda v: symp.encode(v), A.sarray(x))
        if hasattr(x, "toarray"):
            return self.arr(x.toarray())
        return A.sarray(x)

    def array(self, rows):
        """what numpy.array(rows) would be"""
        from . import arr as A

        return A.sarray(rows)

    def ev(self, x, env=None):
        """Evaluate a sympy matrix / expression under {Symbol: value}."""
        from . import symp

        symp.ENV.clear()
        for k, v in (env or {}).items():
            symp.ENV[k] = v
        try:
            if isinstance(x, sympy.MatrixBase):
                return self.arr(x)
            if isinstance(x, np.ndarray):
                from . import arr as A

                return A.vmap(lambda v: symp.encode(v) if isinstance(v, sympy.Basic) else v, x)
            return symp.encode(x) if isinstance(x, sympy.Basic) else core.lift(x)
        finally:
            symp.ENV.clear()

    def cis(self, x):
        return core.op_exp(core.Cx({}, core.lift(x).p))

    def cos(self, x):
        return core.lift(x).cos()

    def sin(self, x):
        return core.lift(x).sin()

    def sqrt(self, x):
        return core.lift(x).sqrt()

    def num(self, x):
        r = core.lift(x)
        if r is None:
            raise TypeError(f"not a number: {type(x)}")
        return r

    @property
    def pi(self):
        return core.Num({((core.const_atom("pi").id, 1),): 1})


def _default(a):
    lo = float(a.lo) if a.lo is not None else -1.0
    hi = float(a.hi) if a.hi is not None else 1.0
    return min(max(0.0, lo), hi)


def _z3num(d):
    import z3

    try:
        if z3.is_int_value(d):
            return d.as_long()
        if z3.is_rational_value(d):
            return float(Fraction(d.numerator_as_long(), d.denominator_as_long()))
        if z3.is_algebraic_value(d):
            return _z3num(d.approx(20))
    except Exception:
        return None
    return None


# --------------------------------------------------------------------------
class StopReplay(Exception):
    pass


class CS(Base):
    """Concrete mode: fixed inputs, untouched repository code."""

    symbolic = False

    def __init__(self, witness, tier):
        super().__init__()
        self.tier = tier
        self.w = witness
        self.failures = []
        self.rngpos = 0
        self.nchecks = 0
        self.diverged = None

    def real(self, name, lo=-4, hi=4, den=None):
        v = self.w["values"].get(name)
        if v is None:
            v = random.Random(name).uniform(lo, hi)
        return float(v)

    def int(self, name, lo, hi):
        v = self.w["values"].get(name)
        if v is None:
            v = random.Random(name).randint(lo, min(hi, lo + 10))
        return int(v)

    def _mkc(self, re, im):
        return complex(re, im)

    def choice(self, name, options):
        options = list(options)
        i = self.w["choices"].get(name)
        if i is None:
            i = random.Random(name).randrange(len(options)) if options else 0
        if i >= len(options):
            self.diverged = f"choice {name}"
            i = 0
        return options[i]

    def pick(self, name, n):
        return self.choice(name, list(range(n)))

    def unit(self, name, n, cplx=True):
        comps = []
        for i in range(n):
            comps.append(f"{name}{i}.re")
            if cplx:
                comps.append(f"{name}{i}.im")
        v = np.array([self.real(c, -1, 1) for c in comps], dtype=float)
        nrm = np.linalg.norm(v)
        v = v / nrm if nrm else np.eye(len(v))[0]
        if not cplx:
            return [float(x) for x in v]
        return [complex(v[2 * i], v[2 * i + 1]) for i in range(n)]

    def number(self, x):
        return sympy.sympify(x)

    def assume(self, cond):
        if not bool(np.all(cond)):
            # rounding of the solver's model; tolerated, the checks still decide
            self.diverged = self.diverged or "assume"

    def all(self, *cs):
        return all(bool(c) for c in cs)

    def any(self, *cs):
        return any(bool(c) for c in cs)

    def no(self, c):
        return not bool(c)

    def eq(self, a, b):
        return bool(a == b)

    def truth(self, c):
        return bool(c)

    def check(self, cond, label, key=None, info=None, margin=None):
        self.nchecks += 1
        ok = bool(np.all(cond))
        if not ok:
            self.failures.append(dict(label=label, key=key, info=repr(info)[:600] if info is not None else None))

    def close(self, a, b, label, tol=TOL, key=None, info=None):
        self.close_all([(a, b)], label, tol, key, info)

    def close_all(self, pairs, label, tol=TOL, key=None, info=None):
        self.nchecks += 1
        for a, b in pairs:
            a, b = complex(self._c(a)), complex(self._c(b))
            if not abs(a - b) <= max(tol, CTOL) * max(1.0, abs(a), abs(b)):
                self.failures.append(dict(label=label, key=key, info=f"{a} != {b} {info if info is not None else ''}"[:600]))
                return

    def _c(self, v):
        if isinstance(v, sympy.Basic):
            return complex(v.evalf())
        return v

    def close_mat(self, A, B, label, tol=TOL, key=None, info=None):
        A, B = self.arr(A), self.arr(B)
        if A.shape != B.shape:
            self.check(False, label + f" (shape {A.shape} vs {B.shape})", key=key, info=info)
            return
        self.close_all(zip(A.reshape(-1), B.reshape(-1)), label, tol, key, info)

    def rng_choice(self, a, size, replace, p):
        if isinstance(a, (int, np.integer)):
            a = list(range(int(a)))
        else:
            a = [a[i] for i in range(len(a))] if isinstance(a, np.ndarray) else list(a)
        n = 1 if size is None else int(size)
        if p is not None:
            p = [float(x) for x in p]
            if len(p) != len(a):
                raise ValueError("'a' and 'p' must have same size")
            if any(x < 0 for x in p):
                raise ValueError("probabilities are not non-negative")
            if abs(sum(p) - 1) > 1.5e-8:
                raise ValueError("probabilities do not sum to 1")
        if len(a) == 0 and n > 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if not replace and n > len(a):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        rec = self.w["rng"][self.rngpos] if self.rngpos < len(self.w["rng"]) else []
        self.rngpos += 1
        ok = [i for i in range(len(a)) if p is None or p[i] > 0]
        out = []
        for d in range(n):
            i = rec[d] if d < len(rec) else None
            cand = ok if replace else [j for j in ok if j not in out]
            if i is None or i not in cand:
                self.diverged = self.diverged or "rng"
                i = cand[d % len(cand)] if cand else 0
            out.append(i)
        res = [a[i] for i in out]
        if size is None:
            return res[0]
        if all(isinstance(r, str) for r in res):
            return np.array(res)
        if all(isinstance(r, (int, np.integer)) for r in res):
            return np.array(res)
        o = np.empty(n, dtype=object)
        for i, r in enumerate(res):
            o[i] = r
        return o

    def rng_multinomial(self, n, pvals):
        rec = self.w["rng"][self.rngpos] if self.rngpos < len(self.w["rng"]) else None
        self.rngpos += 1
        if rec is None:
            return np.random.RandomState(0).multinomial(n, pvals)
        return np.array(rec)

    def arr(self, x):
        if isinstance(x, sympy.MatrixBase):
            return np.array(x.evalf().tolist(), dtype=complex)
        if hasattr(x, "toarray"):
            return np.asarray(x.toarray())
        return np.asarray(x, dtype=complex)

    def array(self, rows):
        return np.array(rows)

    def ev(self, x, env=None):
        if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x) == object:
            f = [complex(sympy.sympify(v).subs(env or {}, simultaneous=True).evalf()) for v in x.reshape(-1)]
            return np.array(f, dtype=complex).reshape(x.shape)
        if isinstance(x, sympy.MatrixBase):
            if env:
                x = x.subs(list(env.items()), simultaneous=True)
            return np.array(x.evalf().tolist(), dtype=complex)
        if isinstance(x, sympy.Basic):
            return complex(x.subs(list((env or {}).items()), simultaneous=True).evalf()) if env else complex(x.evalf())
        return x

    @staticmethod
    def _re(x):
        if isinstance(x, sympy.Basic):
            x = complex(x.evalf())
        return x.real if isinstance(x, complex) and abs(x.imag) < 1e-12 else x

    def cis(self, x):
        x = self._re(x)
        return complex(math.cos(x), math.sin(x))

    def cos(self, x):
        return math.cos(self._re(x))

    def sin(self, x):
        return math.sin(self._re(x))

    def sqrt(self, x):
        return math.sqrt(x)

    def num(self, x):
        if isinstance(x, (int, float, np.integer, np.floating)):
            return float(x)
        return complex(x) if not isinstance(x, sympy.Basic) else complex(x.evalf())

    @property
    def pi(self):
        return math.pi
