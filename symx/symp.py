"""Bridge between symbolic numbers and the sympy expressions the real code builds.

A symbolic *number* entering sympy becomes a `NumAtom`: an atomic real expression
without free symbols (like a Float whose value is not known).  `encode` maps a
sympy expression without free symbols (or with free symbols that the scenario
assigned symbolic values) back to a polynomial.
"""
import functools
import re
from fractions import Fraction

import sympy
from sympy.core.expr import AtomicExpr

from . import core
from .core import ONE, Cx, INum, Num, Unsupported, lift, parts


class NumAtom(AtomicExpr):
    """Real number with unknown value."""

    is_commutative = True
    is_real = True
    is_finite = True
    is_extended_real = True
    is_number = False
    _symx_numatom = True
    __slots__ = ("name", "aid")

    def __new__(cls, name, aid):
        o = AtomicExpr.__new__(cls)
        o.name = name
        o.aid = aid
        return o

    def _hashable_content(self):
        return (self.name,)

    def __getnewargs__(self):
        return (self.name, self.aid)

    def _sympystr(self, printer):
        from . import tokens

        if QUIET[0]:
            return self.name
        t = tokens.text(encode(self))
        return f"({t})" if t.startswith("-") else t

    _sympyrepr = _sympystr

    def sort_key(self, order=None):
        return self.class_key(), (1, (self.name,)), sympy.S.One.sort_key(), sympy.S.One

    def _eval_evalf(self, prec):
        return self

    def _eval_is_zero(self):
        return None

    def __float__(self):
        raise Unsupported("float() of a symbolic number inside sympy")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic number inside sympy")


QUIET = [0]  # > 0 while sympy prints generators only to sort them


def _quiet(f):
    @functools.wraps(f)
    def g(*a, **k):
        QUIET[0] += 1
        try:
            return f(*a, **k)
        finally:
            QUIET[0] -= 1

    return g


def quiet_sorting():
    import sys

    from sympy.polys import polyutils

    old = polyutils._sort_gens
    if getattr(old, "__wrapped__", None) is None:
        new = _quiet(old)
        for n, m in list(sys.modules.items()):
            if n.startswith("sympy.") and getattr(m, "_sort_gens", None) is old:
                m._sort_gens = new


quiet_sorting()
sympy.Expr.sort_key = _quiet(sympy.Expr.sort_key)


class IntAtom(NumAtom):
    is_integer = True
    is_rational = True


def has_free(e):
    fs = getattr(e, "free_symbols", None)
    return bool(fs)


def p_to_sympy(p):
    out = sympy.Integer(0)
    terms = []
    for m, c in sorted(p.items()):
        f = Fraction(c)
        t = sympy.Rational(f.numerator, f.denominator)
        for aid, e in m:
            a = core.CTX.atoms[aid]
            if a.kind == "pi":
                b = sympy.pi
            elif a.kind == "sqrtc":
                b = sympy.sqrt(a.data)
            elif a.isint:
                b = IntAtom(a.name, aid)
            else:
                b = NumAtom(a.name, aid)
            t = t * b**e
        terms.append(t)
    return sympy.Add(*terms) if terms else out


def to_sympy(x):
    re, im = parts(x)
    r = p_to_sympy(re)
    if im:
        r = r + sympy.I * p_to_sympy(im)
    return r


def sym_op(name, a, b):
    a, b = sympy.sympify(a), sympy.sympify(b)
    if name == "add":
        return a + b
    if name == "sub":
        return a - b
    if name == "mul":
        return a * b
    if name == "truediv":
        return a / b
    if name == "pow":
        return a**b
    raise Unsupported(name)


ENV = {}  # sympy Symbol -> symbolic value, set by S.eval_* around encode


def _all(args):
    return [encode(a) for a in args]


def encode(e):
    """sympy expression -> Num/Cx."""
    if isinstance(e, core.Sym):
        return e
    if isinstance(e, (int, float, complex)):
        return lift(e)
    if isinstance(e, NumAtom):
        a = core.CTX.byname.get(e.name)
        if a is None:
            raise Unsupported("symbolic number from another path")
        return (INum if a.isint else Num)({((a.id, 1),): 1})
    if isinstance(e, sympy.Integer):
        return lift(int(e))
    if isinstance(e, sympy.Rational):
        return lift(Fraction(int(e.p), int(e.q)))
    if isinstance(e, sympy.Float):
        return lift(float(e))
    if e is sympy.I:
        return Cx({}, {ONE: 1})
    if e is sympy.pi:
        return Num({((core.const_atom("pi").id, 1),): 1})
    if e is sympy.E:
        import math

        return lift(math.e)
    if isinstance(e, sympy.Symbol):
        v = ENV.get(e)
        if v is None:
            raise TypeError("Cannot convert expression to float")
        return lift(v)
    if isinstance(e, sympy.Add):
        r = lift(0)
        for a in e.args:
            r = core.op_add(r, encode(a))
        return r
    if isinstance(e, sympy.Mul):
        r = lift(1)
        for a in e.args:
            r = core.op_mul(r, encode(a))
        return r
    if isinstance(e, sympy.exp):
        return core.op_exp(encode(e.args[0]))
    if isinstance(e, sympy.Pow):
        b, x = e.args
        if b is sympy.E:
            return core.op_exp(encode(x))
        if isinstance(x, sympy.Float) and float(x) == int(x):
            x = sympy.Integer(int(x))
        if isinstance(x, sympy.Float) and float(x) * 2 == int(float(x) * 2):
            x = sympy.Rational(int(float(x) * 2), 2)
        if isinstance(x, sympy.Integer):
            return core.op_pow(encode(b), lift(int(x)))
        if isinstance(x, sympy.Rational) and x.q == 2:
            v = encode(b)
            if isinstance(v, Cx) and not v.im:
                v = Num(v.re)
            if isinstance(v, Cx):
                if not has_free(e) and not e.atoms(NumAtom):
                    return lift(complex(e.evalf(30)))
                raise Unsupported("complex square root")
            c = core.p_const(v.p)
            if c is not None and c < 0:
                r = Cx({}, core.p_sqrt({ONE: -c}))
            else:
                if c is None and core.branch(core.rel("lt", v.p)):
                    r = Cx({}, core.p_sqrt(core.p_neg(v.p)))
                else:
                    r = Num(core.p_sqrt(v.p))
            return core.op_pow(r, lift(int(x.p)))
        if not has_free(e) and e.is_number:
            return lift(complex(e.evalf(30)))
        v = encode(b)
        if not isinstance(v, Cx) and core.p_const(v.p) is not None:
            return core.op_pow(v, encode(x))
        raise Unsupported(f"sympy power {e}")
    if isinstance(e, sympy.cos):
        return encode_real(e.args[0]).cos()
    if isinstance(e, sympy.sin):
        return encode_real(e.args[0]).sin()
    if isinstance(e, sympy.tan):
        return encode_real(e.args[0]).tan()
    if isinstance(e, sympy.conjugate):
        return encode(e.args[0]).conjugate()
    if isinstance(e, sympy.re):
        return encode(e.args[0]).real
    if isinstance(e, sympy.im):
        return encode(e.args[0]).imag
    if isinstance(e, sympy.Abs):
        return abs(encode(e.args[0]))
    if isinstance(e, sympy.log):
        return core.op_log(encode_real(e.args[0]))
    if isinstance(e, sympy.MatrixBase):
        raise Unsupported("matrix where a scalar is expected")
    if isinstance(e, sympy.Expr) and e.is_number and not e.atoms(NumAtom):
        return lift(complex(e.evalf(30)))
    raise Unsupported(f"sympy node {type(e).__name__}")


def encode_real(e):
    v = encode(e)
    if isinstance(v, Cx):
        if v.im:
            raise Unsupported("complex argument of a real function")
        v = Num(v.re)
    return v


def encode_float(e):
    """float(expr) semantics: TypeError when it has free symbols or is complex."""
    if has_free(e):
        raise TypeError("Cannot convert expression to float")
    v = encode(e)
    if isinstance(v, Cx):
        if v.im:
            raise TypeError("Cannot convert complex to float")
        v = Num(v.re)
    return v


def encode_complex(e):
    if has_free(e):
        raise TypeError("Cannot convert expression to complex")
    return encode(e)


def has_numatom(e):
    if isinstance(e, sympy.MatrixBase):
        return any(has_numatom(x) for x in e)
    return isinstance(e, sympy.Basic) and bool(e.atoms(NumAtom))


_NUMTEXT = re.compile(r"(?<![\w.])\d+(?:\.\d*)?(?:[eE][+-]?\d+)?(?![\w.])")


def sympify_text(a, *args, **kw):
    """sympify; number literals that stand for symbolic numbers become those numbers."""
    from . import tokens

    if not isinstance(a, str) or not core.CTX.tokens:
        return sympy.sympify(a, *args, **kw)
    loc = dict(kw.pop("locals", None) or {})

    def rep(m):
        t = m.group(0)
        try:
            v = int(t)
        except ValueError:
            v = float(t)
        w = tokens.untoken(v)
        if not isinstance(w, core.Sym):
            return t
        n = f"_symxtok_{len(loc)}"
        loc[n] = to_sympy(w)
        return n

    return sympy.sympify(_NUMTEXT.sub(rep, a), *args, locals=loc, **kw)
