"""C19: translating symbolic expressions preserves their value."""
import cmath
import itertools
import warnings
from fractions import Fraction

import sympy
from orquestra.quantum.circuits import natural_key, natural_key_revlex
from orquestra.quantum.circuits.symbolic import natural_key_fixed_names_order
from orquestra.quantum.circuits.symbolic import sympy_expressions
from orquestra.quantum.circuits.symbolic.expressions import ExpressionDialect, FunctionCall, Symbol, reduction
from orquestra.quantum.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
from orquestra.quantum.circuits.symbolic.translations import translate_expression

from symx import core
from symx.api import Caught, scenario

warnings.simplefilter("ignore")


def setup_symbolic():
    from symx import symp

    e = sympy_expressions.expression_from_sympy
    e.register(symp.NumAtom)(e.dispatch(sympy.Float))
    e.register(symp.IntAtom)(e.dispatch(sympy.Integer))


BOUNDS = ("every expression tree of depth 2 over the grammar (13 kinds of leaves, 15 operations, automatic and unevaluated construction), "
          "depth 3 (thorough 4) with representative leaves, sums and products of 2-4 terms with negated, reciprocal and numeric terms at "
          "every position; arbitrary real symbol values in [-3, 3] and arbitrary float and integer constants; every unsupported construct of "
          "a list of 40 in every operand position; natural keys of 2-4 names over eight name patterns with arbitrary embedded integers; sums "
          "and products of up to 20 terms, 25 nested operations, numbers from 5e-324 to 10^40, lists of up to 12 names")
OUTSIDE = ("assignments at poles (zero denominators); overflow; symbols are identified by their names (assumptions, commutativity and dummies "
           "are not part of the neutral tree); infinities, NaN and E may be passed on or refused; elementary functions of non-angle arguments "
           "and non-integer powers are opaque to the solver: equal arguments give equal values; constants that coincide to 1e-14 count as equal")

x, y, z = sympy.symbols("x y z")
SYMS = {"x": x, "y": y, "z": z}


# ---- value of an expression: exact rational arithmetic on leaves, opaque functions
def rat(v):
    f = Fraction(v)
    g = f.limit_denominator(10**6)
    return g if abs(f - g) <= abs(f) * Fraction(1, 10**14) else f


class Value:
    """expressions over symbolic reals; functions that are not polynomial are opaque atoms of their canonical argument"""

    def __init__(self, S, env):
        self.S, self.env, self.inner, self.axioms, self.rooted, self.inverses = S, env, {}, set(), {}, {}

    def of(self, e):
        from symx import symp

        if isinstance(e, core.Sym):
            return e
        if isinstance(e, (bool, str)) or e is None:
            raise TypeError(f"not a number: {e!r}")
        if isinstance(e, (int, float)):
            return core.lift(rat(e))
        if isinstance(e, complex):
            return core.op_add(core.lift(rat(e.real)), core.op_mul(core.lift(1j), core.lift(rat(e.imag))))
        if isinstance(e, symp.NumAtom):
            return symp.encode(e)
        if e is sympy.I:
            return core.lift(1j)
        if isinstance(e, (sympy.Integer, sympy.Rational)):
            return core.lift(Fraction(int(e.p), int(e.q)))
        if isinstance(e, sympy.Float):
            return core.lift(rat(float(e)))
        if e is sympy.pi:
            return self.S.pi
        if isinstance(e, sympy.Symbol):
            return core.lift(self.env[e])
        if isinstance(e, sympy.Add):
            r = core.lift(0)
            for a in e.args:
                r = core.op_add(r, self.of(a))
            return r
        if isinstance(e, sympy.Mul):
            r = core.lift(1)
            for a in e.args:
                r = core.op_mul(r, self.of(a))
            return r
        if isinstance(e, sympy.exp):
            return self.exponential(self.of(e.args[0]))
        if isinstance(e, sympy.Pow):
            return self.power(self.of(e.args[0]), self.of(e.args[1]))
        if isinstance(e, (sympy.cos, sympy.sin, sympy.tan)):
            v = self.of(e.args[0])
            n = type(e).__name__
            return self.opaque(n, v)
        if isinstance(e, (sympy.cosh, sympy.sinh, sympy.tanh)):
            v = self.opaque(type(e).__name__[:-1], core.op_mul(core.lift(1j), self.of(e.args[0])))
            return v if isinstance(e, sympy.cosh) else core.op_mul(core.lift(-1j), v)
        return self.opaque(type(e).__name__, *[self.of(a) for a in e.args])

    def power(self, b, e):
        k = self.rooted.get(ident(b))
        if k and not (not isinstance(e, core.Cx) and core.p_const(e.p) is not None and rat(core.p_const(e.p)).denominator == 1):
            return self.power(k[0], core.op_mul(e, core.lift(k[1])))  # (b^c)^e = b^(c e) for -1 < c <= 1
        c = core.p_const(e.p) if not isinstance(e, core.Cx) else None
        if c is None:
            if constant(b) is not None and not core.parts(b)[1] and 0 < constant(b).real < 1:
                return self.power(core.lift(1 / rat(core.p_const(core.parts(b)[0]))), core.op_mul(core.lift(-1), e))
            # b^(sum of c m) is the product of (b^(m/q))^p, c = p / q
            r = core.lift(1)
            re, im = core.parts(e)
            for part, unit in ((re, 1), (im, 1j)):
                for m, k in sorted(part.items()):
                    k = rat(k)
                    if not m:
                        f = self.power(b, core.lift(k)) if unit == 1 else self.opaque("pow", b, core.Cx({}, {m: k}))
                    else:
                        q = {m: Fraction(1, k.denominator)}
                        f = self.integer(self.opaque("pow", b, core.Num(q) if unit == 1 else core.Cx({}, q)), k.numerator)
                    r = core.op_mul(r, f)
            return r
        c = rat(c)
        if constant(b) is not None and c.denominator != 1:
            return self.of(general_pow(constant(b), complex(c)))
        n = c.numerator // c.denominator
        w = self.integer(b, n)
        r = c - n
        if not r:
            if n == -1 and k and k[1] < 1:
                self.rooted[ident(w)] = (k[0], -k[1])
            return w
        w = core.op_mul(self.integer(self.root(b, r.denominator), r.numerator), w) if -1 > c or c > 0 else self.integer(self.root(b, r.denominator), c.numerator)
        if -1 < c < 1:
            self.rooted[ident(w)] = (b, c)
        return w

    def root(self, b, q):
        r = self.opaque("pow", b, core.lift(Fraction(1, q)))
        self.rooted[ident(r)] = (b, Fraction(1, q))
        if q < 4 and (q, ident(r)) not in self.axioms:
            self.axioms.add((q, ident(r)))
            d = core.op_sub(core.op_pow(r, core.lift(q)), b)
            for part in core.parts(d):
                self.S.assume(core.eq_op(core.Num(part), core.lift(0)))
        return r

    def integer(self, b, n):
        return core.op_pow(b, core.lift(n)) if n >= 0 else self.inverse(core.op_pow(b, core.lift(-n)))

    def exponential(self, a):
        if constant(a) is not None:
            return self.of(cmath.exp(constant(a)))
        r = core.lift(1)
        for part, unit in zip(core.parts(a), (1, 1j)):
            for m, k in sorted(part.items()):
                k = rat(k)
                q = {m: Fraction(1, k.denominator)}
                r = core.op_mul(r, self.integer(self.opaque("exp", core.Num(q) if unit == 1 else core.Cx({}, q)), k.numerator))
        return r

    def inverse(self, v):
        re, im = core.parts(v)
        if re and im:
            re, im = core.Num(re), core.Num(im)
            d = core.op_add(core.op_mul(re, re), core.op_mul(im, im))
            return core.op_mul(v.conjugate(), self.inverse(d))
        if im:
            return core.op_mul(core.lift(-1j), self.inverse(core.Num(im)))
        if len(re) == 1:  # factor by factor
            (m, c), = re.items()
            r = core.lift(1 / Fraction(c))
            for aid, e in m:
                r = core.op_mul(r, core.op_pow(self.inverse_atom(aid), core.lift(e)))
            return r
        return self.reciprocal(core.Num(re))

    def inverse_atom(self, aid):
        if aid not in self.inverses:
            w = self.reciprocal(core.Num({((aid, 1),): 1}))
            self.inverses[aid] = w
            if len(w.p) == 1:
                (m, c), = w.p.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    self.inverses[m[0][0]] = core.Num({((aid, 1),): 1})
        return self.inverses[aid]

    def reciprocal(self, v):
        self.S.assume(core.b_or(v > 0, v < 0))
        w = core.op_truediv(core.lift(1), v)
        if len(w.p) == 1:
            (m, c), = w.p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                self.inverses[m[0][0]] = v
        return w

    def opaque(self, name, *args):
        """function value: an atom per canonical argument tuple; odd / even functions share the atom of the negated argument"""
        args = [core.Cx(v.p, {}) if not isinstance(v, core.Cx) else v for v in args]
        if all(constant(a) is not None for a in args):
            return self.of(FUNCTIONS[name](*[constant(a) for a in args]))
        sign, scale = 1, None
        if name in ("cos", "sin", "tan"):
            lead = sorted(args[0].re.items()) or sorted(args[0].im.items())
            if lead and lead[0][1] < 0:
                args = [core.Cx(core.p_neg(args[0].re), core.p_neg(args[0].im))]
                sign = -1 if name != "cos" else 1
        if name == "pow" and core.p_const(args[1].re) is not None and not args[1].im:
            k = max([abs(c) for c in args[0].re.values()] + [abs(c) for c in args[0].im.values()] + [0])
            if k not in (0, 1) and len(args[0].re) + len(args[0].im) > 0:
                args[0] = core.Cx({m: rat(c / k) for m, c in args[0].re.items()}, {m: rat(c / k) for m, c in args[0].im.items()})
                scale = core.lift(rat(float(k) ** float(core.p_const(args[1].re))))
        key = (name,) + tuple((core.p_key({m: rat(c) for m, c in a.re.items()}), core.p_key({m: rat(c) for m, c in a.im.items()})) for a in args)
        v = self.inner.get(key)
        if v is None:
            v = self.inner[key] = self.fresh(name, args)
        if sign < 0:
            v = core.op_mul(core.lift(-1), v)
        return core.op_mul(scale, v) if scale is not None else v

    def fresh(self, name, args):
        i = len(self.inner)
        deps = tuple({d for a in args for p in (a.re, a.im) for d in core.p_atoms(p)})

        def at(env, part):
            vs = [complex(core.p_eval(a.re, env), core.p_eval(a.im, env)) for a in args]
            w = FUNCTIONS[name](*vs)
            return w.real if part == 0 else w.imag

        parts = []
        for part in (0, 1):
            if part == 1 and name in ("cos", "sin", "tan", "exp") and not args[0].im:
                parts.append({})
                continue
            a = core.CTX.atom(f"{name}{'ri'[part]}{i}_{len(core.CTX.atoms)}", kind="opaque", data=(name, i, part))
            a.evalf = lambda env, part=part: at(env, part)
            a.deps = deps
            parts.append({((a.id, 1),): 1})
        return core.Cx(*parts) if parts[1] else core.Num(parts[0])


def ident(v):
    return tuple(core.p_key({m: rat(c) for m, c in p.items()}) for p in core.parts(v))


def constant(v):
    re, im = core.parts(v)
    r, i = core.p_const(re), core.p_const(im)
    return None if r is None or i is None else complex(r, i)


def general_pow(b, e):
    if b == 0:
        if e.real > 0:
            return 0j
        if e == 0:
            return 1 + 0j
        raise ZeroDivisionError
    return cmath.exp(e * cmath.log(b))


FUNCTIONS = {"cos": cmath.cos, "sin": cmath.sin, "tan": cmath.tan, "exp": cmath.exp, "pow": general_pow}


def same_value(S, e, f, env, label, V=None):
    if S.symbolic:
        V = V or Value(S, env)
        if isinstance(e, sympy.Basic) and e.has(sympy.zoo, sympy.nan, sympy.oo):
            return
        S.close(V.of(e), V.of(f), label, tol=1e-9)
        return
    a, b = number(e, env), number(f, env)
    if a is None or b is None or abs(a) > 1e12:
        return
    S.check(abs(a - b) <= 1e-7 * max(1, abs(a)), f"{label}: {a} and {b}")


def number(e, env):
    try:
        v = complex(sympy.sympify(e).subs(list(env.items()), simultaneous=True).evalf(30))
    except (TypeError, ZeroDivisionError, OverflowError):
        return None
    return v if v == v and abs(v) != float("inf") else None


def round_trip(S, e, label="same value"):
    """convert to the neutral tree and back"""
    env = {s: S.real(n, -3, 3) for n, s in SYMS.items()}
    tree = S.catch(expression_from_sympy, e)
    if isinstance(tree, Caught):
        S.fail(f"{e} is refused: {tree!r}")
        return
    neutral(S, tree)
    V = Value(S, env)
    if S.symbolic:
        core.CTX.pow_hook = V.power
    back = S.catch(translate_expression, tree, SYMPY_DIALECT)
    if isinstance(back, Caught):
        if back.isa(ZeroDivisionError, OverflowError) and not S.symbolic:
            return
        S.fail(f"{e}: the tree cannot be translated: {back!r}")
        return
    S.check(getattr(back, "free_symbols", set()) <= e.free_symbols, "no new symbols")
    same_value(S, e, back, env, "same value", V)


def neutral(S, t):
    """only numbers, symbols and known calls"""
    if isinstance(t, FunctionCall):
        S.check(t.name in SYMPY_DIALECT.known_functions, f"known function {t.name}")
        for a in t.args:
            neutral(S, a)
    else:
        S.check(isinstance(t, (int, float, complex, Symbol, core.Sym)), f"leaf {type(t).__name__} of the neutral tree")


LEAVES = ["x", "y", "-1", "1/2", "float", "int", "I", "2", "-1/2", "1/3", "-0.5", "1.0", "3+2i"]


def leaf(S, kind, name):
    if kind in SYMS:
        return SYMS[kind]
    if kind == "float":
        f = S.real(name, -5, 5)
        S.assume(S.any(f > 0.01, f < -0.01))
        return S.number(f)
    if kind == "int":
        i = S.int(name, -50, 50)
        S.assume(S.any(i > 0, i < 0))
        return S.number(i) if S.symbolic else sympy.Integer(i)
    return {"-1": sympy.Integer(-1), "1/2": sympy.Rational(1, 2), "I": sympy.I, "2": sympy.Integer(2), "-1/2": sympy.Rational(-1, 2),
            "1/3": sympy.Rational(1, 3), "-0.5": sympy.Float(-0.5), "0.5": sympy.Float(0.5), "1.0": sympy.Float(1.0), "-1.0": sympy.Float(-1.0),
            "3+2i": 3 + 2 * sympy.I, "0": sympy.Integer(0), "-7/3": sympy.Rational(-7, 3)}[kind]


UNARY = ["neg", "recip", "sqrt", "cos", "sin", "tan", "exp", "square", "cube", "root"]
BINARY = ["add", "sub", "mul", "div", "pow"]


def build(op, a, b=None, evaluate=True):
    ev = dict(evaluate=evaluate)
    if op == "neg":
        return sympy.Mul(-1, a, **ev)
    if op == "recip":
        return sympy.Pow(a, -1, **ev)
    if op == "sqrt":
        return sympy.Pow(a, sympy.Rational(1, 2), **ev)
    if op == "root":
        return sympy.Pow(a, sympy.Float(0.5), **ev)
    if op == "square":
        return sympy.Pow(a, 2, **ev)
    if op == "cube":
        return sympy.Pow(a, -3, **ev)
    if op in ("cos", "sin", "tan", "exp"):
        return getattr(sympy, op)(a, **ev)
    if op == "add":
        return sympy.Add(a, b, **ev)
    if op == "sub":
        return sympy.Add(a, sympy.Mul(-1, b, **ev), **ev)
    if op == "mul":
        return sympy.Mul(a, b, **ev)
    if op == "div":
        return sympy.Mul(a, sympy.Pow(b, -1, **ev), **ev)
    return sympy.Pow(a, b, **ev)


SUPPORTED = (sympy.Symbol, sympy.Integer, sympy.Float, sympy.Rational, sympy.Add, sympy.Mul, sympy.Pow, sympy.cos, sympy.sin, sympy.tan, sympy.exp)


def supported(e):
    return all(isinstance(n, SUPPORTED) or n is sympy.I or getattr(n, "_symx_numatom", False) for n in sympy.preorder_traversal(e))


def run(S, e):
    if not isinstance(e, sympy.Basic) or not supported(e):  # sympy rewrote it to something else (cosh, zoo, ...)
        return
    round_trip(S, e)


@scenario(weight=3)
def depth_two(S):
    op = S.choice("op", UNARY + BINARY)
    a = leaf(S, S.choice("a", LEAVES), "fa")
    b = leaf(S, S.choice("b", LEAVES), "fb") if op in BINARY else None
    run(S, build(op, a, b, bool(S.flag("evaluate"))))


TRIPLES = [("x", "y", "x"), ("x", "float", "y"), ("I", "x", "2"), ("1/2", "x", "-1"), ("y", "-1", "int")]


@scenario(weight=4)
def depth_three(S):
    outer, inner = S.choice("outer", UNARY + BINARY), S.choice("inner", UNARY + BINARY)
    if outer in UNARY and inner in UNARY and not S.thorough:
        trip = S.choice("leaves", TRIPLES[:3])
    else:
        trip = S.choice("leaves", TRIPLES if S.thorough else TRIPLES[:4])
    a, b, c = (leaf(S, k, f"f{i}") for i, k in enumerate(trip))
    lazy = S.choice("lazy", ["no", "inner", "outer", "both"]) if S.thorough else S.choice("lazy", ["no", "both"])
    e = build(inner, a, b, lazy in ("no", "outer"))
    ev = lazy in ("no", "inner")
    if outer in UNARY:
        run(S, build(outer, e, None, ev))
    else:
        run(S, build(outer, e, c, ev) if S.flag("left") else build(outer, c, e, ev))


@scenario(weight=2)
def depth_four(S):
    """three operations in a chain, or a binary operation of two compound operands"""
    ops = UNARY[:8] + BINARY
    if S.choice("shape", ["chain", "pair"]) == "pair":
        l, r = S.choice("l", ["neg", "recip", "cos", "add", "sub", "div", "pow"]), S.choice("r", ["neg", "recip", "exp", "sqrt", "sub", "mul", "div"])
        o = S.choice("o", BINARY)
        ev = bool(S.flag("evaluate"))
        run(S, build(o, build(l, x, leaf(S, "float", "f"), ev), build(r, y, x, ev), ev))
        return
    pick = ops if S.thorough else ["neg", "recip", "sqrt", "cos", "sub", "div", "pow"]
    o1, o2, o3 = (S.choice(f"o{i}", pick) for i in range(3))
    ev = bool(S.flag("evaluate"))
    e = build(o1, x, y, ev)
    e = build(o2, y, e, ev) if o2 in BINARY else build(o2, e, None, ev)
    run(S, build(o3, e, x, ev) if o3 in BINARY else build(o3, e, None, ev))


TERMS = {
    "x": lambda S, n: x, "-y": lambda S, n: -y, "2z": lambda S, n: 2 * z, "1/x": lambda S, n: 1 / x, "-1": lambda S, n: sympy.Integer(-1),
    "f": lambda S, n: leaf(S, "float", n), "-x*y": lambda S, n: -x * y, "-(x+y)": lambda S, n: sympy.Mul(-1, x + y, evaluate=False),
    "1/(x+y)": lambda S, n: 1 / (x + y), "-1/z": lambda S, n: -1 / z, "x-y": lambda S, n: x - y, "x/y": lambda S, n: x / y,
    "sqrt": lambda S, n: sympy.sqrt(z), "1/sqrt": lambda S, n: 1 / sympy.sqrt(z), "-1.0y": lambda S, n: -1.0 * y, "y**-1.0": lambda S, n: y**-1.0,
    "-f*x": lambda S, n: -leaf(S, "float", n) * x, "-I*x": lambda S, n: -sympy.I * x, "x**y": lambda S, n: x**y, "x**-y": lambda S, n: x**-y,
}


@scenario(weight=3)
def terms(S):
    """sums and products: negated and reciprocal terms at every position"""
    k = S.choice("count", [2, 3, 4])
    names = list(TERMS)
    if k == 2:
        ns = [S.choice("t0", names), S.choice("t1", names)]
    elif k == 3:
        ns = [S.choice(f"t{i}", [n for n in names if n not in ("-1.0y", "y**-1.0", "-f*x", "x**-y", "2z", "x/y", "-x*y", "sqrt")] if S.thorough else ["x", "-y", "1/x", "-1", "x-y", "-1/z"]) for i in range(3)]
    else:
        ns = [S.choice(f"t{i}", ["x", "-y", "1/(x+y)", "f"]) for i in range(4)]
    ts = [TERMS[n](S, f"f{i}") for i, n in enumerate(ns)]
    op = S.choice("op", [sympy.Add, sympy.Mul])
    run(S, op(*ts, evaluate=bool(S.flag("evaluate"))))


@scenario()
def numbers(S):
    """leaves on their own, native and sympy"""
    k = S.choice("kind", ["sympy float", "sympy int", "symbol", "I", "rational", "float", "int", "complex", "big", "zero"])
    if k == "symbol":
        n = S.choice("name", ["x", "theta_1", "alpha", "x_{12}", "β", "lambda", "I", "pi", "E", "2x", "a b"])
        t = expression_from_sympy(sympy.Symbol(n))
        S.check(t == Symbol(n) and isinstance(t, Symbol), "symbol keeps its name")
        S.check(translate_expression(t, SYMPY_DIALECT) == sympy.Symbol(n), "symbol comes back")
        return
    e = {"sympy float": lambda: leaf(S, "float", "f"), "sympy int": lambda: leaf(S, "int", "i"), "I": lambda: sympy.I,
         "rational": lambda: sympy.Rational(S.choice("p", [1, -1, 7, -22, 10**9 + 7]), S.choice("q", [2, 3, 7, 1000])),
         "float": lambda: S.real("f", -9, 9), "int": lambda: S.int("i", -10**6, 10**6),
         "complex": lambda: S.cplx("c") if S.symbolic else complex(S.cplx("c")), "big": lambda: sympy.Integer(10) ** 30, "zero": lambda: sympy.Integer(0)}[k]()
    t = expression_from_sympy(e)
    back = translate_expression(t, SYMPY_DIALECT)
    same_value(S, e, back, {}, f"{k} keeps its value")


UNKNOWN = {
    "pi": lambda: sympy.pi, "GoldenRatio": lambda: sympy.GoldenRatio, "EulerGamma": lambda: sympy.EulerGamma, "Catalan": lambda: sympy.Catalan,
    "log": lambda: sympy.log(x), "Abs": lambda: sympy.Abs(x), "sec": lambda: sympy.sec(x), "cot": lambda: sympy.cot(x), "csc": lambda: sympy.csc(x),
    "sinh": lambda: sympy.sinh(x), "cosh": lambda: sympy.cosh(x), "tanh": lambda: sympy.tanh(x), "asin": lambda: sympy.asin(x),
    "acos": lambda: sympy.acos(x), "atan": lambda: sympy.atan(x), "atan2": lambda: sympy.atan2(x, y), "re": lambda: sympy.re(x),
    "im": lambda: sympy.im(x), "arg": lambda: sympy.arg(x), "conjugate": lambda: sympy.conjugate(x), "sign": lambda: sympy.sign(x),
    "floor": lambda: sympy.floor(x), "ceiling": lambda: sympy.ceiling(x), "Max": lambda: sympy.Max(x, y), "Min": lambda: sympy.Min(x, y),
    "Mod": lambda: sympy.Mod(x, 3), "gamma": lambda: sympy.gamma(x), "factorial": lambda: sympy.factorial(x), "erf": lambda: sympy.erf(x),
    "Heaviside": lambda: sympy.Heaviside(x), "Piecewise": lambda: sympy.Piecewise((x, x > 0), (y, True)),
    "Derivative": lambda: sympy.Derivative(sympy.Function("f")(x), x), "Integral": lambda: sympy.Integral(x**2, (x, 0, y)),
    "Sum": lambda: sympy.Sum(x**z, (z, 0, 3)), "Product": lambda: sympy.Product(x + z, (z, 1, 3)), "Indexed": lambda: sympy.IndexedBase("A")[1],
    "MatrixElement": lambda: sympy.MatrixSymbol("M", 2, 2)[0, 1], "sinc": lambda: sympy.sinc(x), "LambertW": lambda: sympy.LambertW(x),
    "cbrt of Abs": lambda: sympy.Abs(x) ** sympy.Rational(1, 3), "KroneckerDelta": lambda: sympy.KroneckerDelta(x, y),
    "besselj": lambda: sympy.besselj(1, x), "RootOf": lambda: sympy.rootof(x**5 - x + 1, 0), "DiracDelta": lambda: sympy.DiracDelta(x),
}
UNDEFINED = ["f", "add", "sub", "mul", "div", "pow", "sqrt", "cos", "sin", "exp", "tan", "sum", "log", "Add", "Symbol", "x", "neg"]
CONTEXTS = {
    "alone": lambda u: u, "left of +": lambda u: sympy.Add(u, y, evaluate=False), "right of +": lambda u: sympy.Add(y, u, evaluate=False),
    "subtracted": lambda u: sympy.Add(y, sympy.Mul(-1, u, evaluate=False), evaluate=False), "factor": lambda u: sympy.Mul(2, u, evaluate=False),
    "numerator": lambda u: sympy.Mul(u, sympy.Pow(y, -1), evaluate=False), "denominator": lambda u: sympy.Mul(y, sympy.Pow(u, -1, evaluate=False), evaluate=False),
    "reciprocal": lambda u: sympy.Pow(u, -1, evaluate=False), "base": lambda u: sympy.Pow(u, 3, evaluate=False),
    "exponent": lambda u: sympy.Pow(2, u, evaluate=False), "root": lambda u: sympy.Pow(u, sympy.Rational(1, 2), evaluate=False),
    "cosine": lambda u: sympy.cos(u, evaluate=False), "deep": lambda u: sympy.exp(sympy.Add(1, sympy.Mul(sympy.I, sympy.sin(u, evaluate=False), y, evaluate=False), evaluate=False), evaluate=False),
    "three terms": lambda u: sympy.Add(x, y, u, evaluate=False), "three factors": lambda u: sympy.Mul(x, u, y, evaluate=False),
}


def refused(S, e, what):
    def both():
        return translate_expression(expression_from_sympy(e), SYMPY_DIALECT)

    r = S.catch(both)
    S.check(isinstance(r, Caught), f"{what} is refused, not translated to {'an error' if isinstance(r, Caught) else r}")


@scenario(weight=2)
def unsupported(S):
    u = S.choice("construct", list(UNKNOWN))
    ctx = S.choice("context", list(CONTEXTS))
    refused(S, CONTEXTS[ctx](UNKNOWN[u]()), f"{u} ({ctx})")


@scenario(weight=2)
def undefined_functions(S):
    """functions that only share their name with an operation"""
    n = S.choice("name", UNDEFINED)
    args = S.choice("args", [(x,), (x, y), (x, y, z), (sympy.Integer(2), x)])
    ctx = S.choice("context", list(CONTEXTS))
    refused(S, CONTEXTS[ctx](sympy.Function(n)(*args)), f"undefined function {n}{args} ({ctx})")
    if ctx == "alone":
        cls = type(n, (sympy.Function,), {"nargs": len(args)})
        refused(S, cls(*args), f"user-defined function {n}{args}")


@scenario()
def other_objects(S):
    """things that are not expressions, and trees with unknown leaves or calls"""
    k = S.choice("object", ["relational", "boolean", "matrix", "text", "none", "list", "tuple of text", "lambda", "set"])
    o = {"relational": lambda: x < y, "boolean": lambda: sympy.And(x < y, y < z), "matrix": lambda: sympy.eye(2), "text": lambda: "x", "none": lambda: None,
         "list": lambda: [x], "tuple of text": lambda: ("x", x), "lambda": lambda: sympy.Lambda(x, x), "set": lambda: sympy.Interval(0, 1)}[k]()
    S.raises(f"{k} refused", (Exception,), expression_from_sympy, o)
    S.raises("unknown call", (ValueError, NotImplementedError, KeyError), translate_expression, FunctionCall("foo", (1, Symbol("x"))), SYMPY_DIALECT)
    S.raises("unknown call inside", (ValueError, NotImplementedError, KeyError), translate_expression, FunctionCall("add", (1, FunctionCall("log", (2,)))), SYMPY_DIALECT)
    S.raises("unknown leaf", (Exception,), translate_expression, o, SYMPY_DIALECT)
    S.raises("unknown leaf inside", (Exception,), translate_expression, FunctionCall("add", (1, o)), SYMPY_DIALECT)


@scenario()
def repeated(S):
    """converting twice gives the same tree; the expression is untouched"""
    f = leaf(S, "float", "f")
    e = S.choice("e", [lambda f: x - f * y, lambda f: x / (y + f), lambda f: sympy.sqrt(x) * f - 1 / y, lambda f: sympy.cos(x * f) ** 2 / y])(f)
    args, text = e.args, sympy.srepr(e) if not S.symbolic else None
    a, b = expression_from_sympy(e), expression_from_sympy(e)
    S.check(same_tree(S, a, b), "same tree")
    S.check(e.args == args, "expression unchanged")
    env = {s: S.real(n, -3, 3) for n, s in SYMS.items()}
    u, v = translate_expression(a, SYMPY_DIALECT), translate_expression(a, SYMPY_DIALECT)
    same_value(S, u, v, env, "same translation")


def same_tree(S, a, b):
    if isinstance(a, FunctionCall):
        return isinstance(b, FunctionCall) and a.name == b.name and len(a.args) == len(b.args) and all(same_tree(S, p, q) for p, q in zip(a.args, b.args))
    if isinstance(a, core.Sym) or isinstance(b, core.Sym):
        return S.truth(S.eq(a, b))
    return type(a) is type(b) and a == b


# ---- natural keys
PATTERNS = [("beta_", None), ("theta_", None), (None,), ("x", None, "y", None), ("x", None, "y"), (None, "_", None), ("beta_", None, "_", None), ("gamma",), ("z", None, "")]


def name_of(pat, ns):
    it = iter(ns)
    return "".join(p if p is not None else str(next(it)) for p in pat)


def key_of(pat, ns):
    """[text, int, text, ...] alternating"""
    it = iter(ns)
    out = [""]
    for p in pat:
        if p is None:
            out += [next(it), ""]
        else:
            out[-1] += p
    return out


def less(S, a, b):
    for u, v in zip(a, b):
        if isinstance(u, str):
            if u != v:
                return u < v
        else:
            if S.truth(u < v):
                return True
            if S.truth(v < u):
                return False
    return len(a) < len(b)


@scenario(weight=2)
def natural_order(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    k = S.choice("count", [2, 3])
    pats = [S.choice(f"p{i}", PATTERNS if k == 2 or S.thorough else PATTERNS[:4]) for i in range(k)]
    nums = [[S.int(f"n{i}_{j}", 0, 10**4) for j in range(p.count(None))] for i, p in enumerate(pats)]
    names = [name_of(p, n) for p, n in zip(pats, nums)]
    syms = [sympy.Symbol(n) for n in names]
    rev = bool(S.flag("revlex"))
    key = natural_key_revlex if rev else natural_key
    mine = [key_of(p, n) for p, n in zip(pats, nums)]
    if rev:
        mine = [m[::-1] for m in mine]
    got = sorted(range(k), key=lambda i: Keyed(key(syms[i])))
    for i, j in zip(got, got[1:]):
        S.check(not less(S, mine[j], mine[i]), f"{names[i]} sorts before {names[j]}")
    a, b = key(syms[0]), key(syms[1])
    lt = S.truth(a < b)
    S.check(bool(lt) == bool(less(S, mine[0], mine[1])), "keys compare as the names' parts")


class Keyed:
    def __init__(self, k):
        self.k = k

    def __lt__(self, other):
        return bool(self.k < other.k)


@scenario()
def fixed_names(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    order = S.choice("order", [("gamma", "beta"), ("theta", "beta", "gamma"), ("a",)])
    k = S.choice("count", [2, 3])
    which = [S.choice(f"w{i}", list(range(len(order)))) for i in range(k)]
    nums = [S.int(f"n{i}", 0, 10**4) for i in range(k)]
    syms = [sympy.Symbol(f"{order[w]}_{n}") for w, n in zip(which, nums)]
    key = natural_key_fixed_names_order(order)
    got = sorted(range(k), key=lambda i: Keyed(key(syms[i])))
    for i, j in zip(got, got[1:]):
        S.check(S.truth(nums[i] < nums[j]) or (S.truth(S.eq(nums[i], nums[j])) and which[i] <= which[j]), "index first, then position in the given order")


@scenario()
def odd_names(S):
    """names with digits that are not ASCII, and names without letters"""
    names = S.choice("names", [("x²", "x2"), ("²", "x"), ("1²", "1"), ("β_10", "β_2"), ("x٣", "x10"), ("½", "x1"), ("①", "2"), ("a01", "a1"), ("0", "00"),
                               ("_1_", "_1"), ("x" * 50 + "9" * 30, "x" * 50 + "9" * 29)])
    syms = [sympy.Symbol(n) for n in names]
    for key in (natural_key, natural_key_revlex):
        r = S.catch(lambda: sorted(syms, key=key))
        S.check(not isinstance(r, Caught), f"{names} can be ordered: {r!r}")
    if names[0] == "β_10":
        S.check(sorted(syms, key=natural_key) == syms[::-1], "embedded integers compare as numbers")
    if names[0].startswith("xxx"):
        S.check(sorted(syms, key=natural_key) == syms[::-1], "long integers compare as numbers")


# ---- size
@scenario()
def exact_numbers(S):
    """numbers of any size keep their value"""
    kind = S.choice("kind", ["int", "rational", "float", "native", "complex", "symbolic int"])
    if kind == "symbolic int":
        n = S.int("n", -10**30, 10**30)
        S.check(S.eq(translate_expression(expression_from_sympy(S.number(n) if S.symbolic else sympy.Integer(n)), SYMPY_DIALECT), n), "integer keeps its value")
        return
    if kind == "int":
        n = S.choice("n", [2**53, 2**53 + 1, -(2**53) - 1, 2**63 - 1, 2**63, 2**64 + 1, 10**22 + 1, -10**40 - 7, 0, 1, -1])
        e, want = sympy.Integer(n), n
    elif kind == "rational":
        p = S.choice("p", [1, -1, 22, 10**12 + 1, 3 * 10**20])
        q = S.choice("q", [3, 7, 1000, 10**9 + 7, 10**15, 10**20 + 39])
        e, want = sympy.Rational(p, q), Fraction(p, q)
    elif kind == "float":
        want = S.choice("f", [1e-300, -1e-17, 1e-9, 0.1, 1e16, 1.5e300, 123456789.123456789, -0.30000000000000004, 5e-324])
        e = sympy.Float(want)
    elif kind == "native":
        want = e = S.choice("v", [2**70, -(2**53) - 1, 1e-300, 0.1, 10**25, -1e-9])
    else:
        want = e = S.choice("v", [1e-9 + 2e9j, 0.1 - 0.3j, 1e-17j, 1e20 + 1j])
    t = expression_from_sympy(e)
    back = translate_expression(t, SYMPY_DIALECT)
    for what, v in (("neutral tree", t), ("translation", back)):
        if isinstance(want, complex):
            S.check(complex(v) == want, f"{what}: {v} for {want}")
        elif isinstance(want, float):
            S.check(float(v) == want, f"{what}: {v} for {want}")
        elif isinstance(want, int):
            S.check(int(v) == want and v == want, f"{what}: {v} for {want}")
        else:
            v = Fraction(int(v.p), int(v.q)) if isinstance(v, sympy.Rational) else Fraction(float(v))
            S.check(abs(v - want) <= abs(want) * Fraction(1, 10**14), f"{what}: {v} for {want}")


@scenario()
def many_arguments(S):
    """sums and products of nine to twenty terms, some negated, reciprocal or equal"""
    k = S.choice("count", [5, 7, 9, 12, 20])
    op = S.choice("op", [sympy.Add, sympy.Mul])
    f = leaf(S, "float", "f")
    at = S.choice("at", [0, k // 2, k - 2, k - 1])
    special = S.choice("special", ["-y", "1/x", "-1", "f", "-(x+y)", "-1/z", "1/(x+y)", "x**y"])
    ts = [(x, y, sympy.Integer(2), x, z, sympy.Rational(1, 2))[i % 6] for i in range(k)] if op is sympy.Mul else \
        [(x * i + y, z * i, x * y * (i + 1), sympy.Integer(i), -z, y * f)[i % 6] for i in range(k)]
    ts[at] = f if special == "f" else TERMS[special](S, "g")
    run(S, op(*ts, evaluate=False))
    if op is sympy.Add or at % 2:
        run(S, op(*ts))


@scenario()
def deep_trees(S):
    """many operations on top of each other"""
    d = S.choice("depth", [6, 10, 25])
    ops = S.choice("ops", [("neg", "add"), ("sub", "cos"), ("recip", "add"), ("mul", "sin"), ("sub", "mul"), ("div", "add"), ("add", "neg", "sub")])
    e = leaf(S, "float", "f") * x
    for i in range(d):
        o = ops[i % len(ops)]
        if o in ("cos", "sin", "recip") and i > 8:
            o = "neg"
        e = build(o, e, (x, y, z)[i % 3], False) if o in BINARY else build(o, e, None, False)
    run(S, e)


LONG_NAMES = [
    ["x_2000000000", "x_10000000001"], ["t999999999", "t1000000000", "t1000000001"], ["b_123456789012", "b_99999999999"],
    ["a1b2c3", "a1b2c10", "a1b10c2", "a2b1c1", "a10b1c1"], [f"theta_{i}" for i in (0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 1000)],
    ["beta_1", "beta_10", "gamma_0", "gamma_2", "gamma_11"], ["x18446744073709551615", "x18446744073709551616", "x99999999999999999999"],
    ["a_1_1_1_1", "a_1_1_1_2", "a_1_1_1_10", "a_1_1_2_0", "a_1_2", "a_2"], ["q" + "0" * 3 + "2", "q3", "q10"],
]


@scenario()
def many_names(S):
    """lists of names in their natural order, shuffled"""
    names = S.choice("names", [n for n in LONG_NAMES])
    if names[0] == "x_2000000000" or names[0].startswith("b_123"):
        names = sorted(names, key=lambda n: int(n[2:]))
    syms = [sympy.Symbol(n) for n in names]
    how = S.choice("order", ["reversed", "rotated", "by name", "interleaved"])
    given = {"reversed": syms[::-1], "rotated": syms[2:] + syms[:2], "by name": sorted(syms, key=str), "interleaved": syms[1::2] + syms[::2]}[how]
    S.check(sorted(given, key=natural_key) == syms, "embedded integers compare as numbers")
    prefix = names[0].rstrip("0123456789")
    if all(n.rstrip("0123456789") == prefix for n in names):
        S.check(sorted(given, key=natural_key_revlex) == syms, "reversed keys too")
    if prefix.endswith("_") and all(n.startswith(prefix) and n.count("_") == 1 for n in names):
        key = natural_key_fixed_names_order([prefix[:-1], "other"])
        S.check(sorted(given, key=key) == syms, "keys with fixed names too")
