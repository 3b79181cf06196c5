"""Opaque text / C-float representatives of symbolic numbers.

When the real code formats a symbolic number the text is a representative number
literal registered in the path's token table; parsing that literal gives the
symbolic number back.  The sign is a solver decision, and with
`CTX.text_classes` the literal's notation (plain / negative exponent / positive exponent) is one too.
"""
from . import core
from .core import ONE, Cx, INum, Num, Unsupported, branch, p_const, p_eval, p_key, p_neg, rel


def _fresh(isint, cls):
    c = core.CTX
    c.ntok += 1
    k = c.ntok
    if isint:
        return 731000000 + 1000 * k
    if cls == "tiny":
        return float(f"7.3130{k:03d}4567893e-06")
    if cls == "huge":
        return float(f"7.3130{k:03d}4567893e+17")
    return float(f"0.7313{k:03d}45678913")


def token(x):
    """Signed token float/int for a non-constant real."""
    c = core.CTX
    p = x.p
    # `unsigned_text`: the literal's sign is not tied to the sign of the value
    neg = False if getattr(c, "unsigned_text", False) else branch(rel("lt", p))
    q = p_neg(p) if neg else p
    isint = isinstance(x, INum)
    key = (isint, p_key(q))
    table = c.__dict__.setdefault("tok_by_key", {})
    v = table.get(key)
    if v is None:
        cls = "plain"
        if not isint and getattr(c, "text_classes", False):
            if branch(rel("lt", core.p_add(q, {ONE: -core.Fraction(1, 10000)}))):
                cls = "tiny"
            elif branch(rel("lt", core.p_add(p_neg(q), {ONE: core.Fraction(10**16)}))):
                cls = "huge"
        v = _fresh(isint, cls)
        table[key] = v
        c.tokens[v] = q
    return -v if neg else v


def text(x, spec=""):
    if isinstance(x, Cx):
        r, i = Num(x.re), Num(x.im)
        rv = py(r)
        iv = py(i)
        return format(complex(rv, iv), spec)
    return format(py(x), spec)


def py(x):
    c = p_const(x.p)
    if c is not None:
        if isinstance(x, INum):
            return int(c)
        return float(c)
    return token(x)


def c_float(x):
    if getattr(core.CTX, "c_tokens", False):
        return float(token(Num(x.p)))
    raise Unsupported("C-level float() of a symbolic value")


def untoken(v):
    """Map token numbers inside a parsed JSON tree back to symbolic values."""
    tok = core.CTX.tokens
    if not tok:
        return v
    t = type(v)
    if t is float or (t is int and abs(v) >= 731000000):
        w = tok.get(v)
        sg = 1
        if w is None:
            w = tok.get(-v)
            sg = -1
        if w is None:
            return v
        w = w if sg == 1 else p_neg(w)
        return INum(w) if t is int else Num(w)
    if t is complex:
        r, i = untoken(v.real), untoken(v.imag)
        if isinstance(r, core.Sym) or isinstance(i, core.Sym):
            return core.op_add(core.lift(r), core.op_mul(core.lift(1j), core.lift(i)))
        return v
    if t is dict:
        return {k: untoken(x) for k, x in v.items()}
    if t is list:
        return [untoken(x) for x in v]
    return v


def tokenise(v):
    """Replace symbolic numbers in a JSON-able tree by token literals."""
    if isinstance(v, Cx):
        raise TypeError("Object of type complex is not JSON serializable")
    if isinstance(v, Num):
        return py(v)
    if isinstance(v, dict):
        return {tokenise(k): tokenise(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return [tokenise(x) for x in v]
    if isinstance(v, core.SBool):
        return bool(v)
    return v


def lit(text_value):
    """float()/complex() result -> symbolic if it is a token."""
    return untoken(text_value)
