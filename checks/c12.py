"""C12: a wavefunction object is normalised after every operation on it."""
import math

import numpy as np
import sympy
from orquestra.quantum.wavefunction import (Wavefunction, flip_amplitudes, flip_wavefunction, load_wavefunction,
                                            save_wavefunction)

from symx.api import Caught, scenario

from . import lib

BOUNDS = ("numeric vectors of 1-8 arbitrary complex amplitudes |re|,|im|<=2 (any length 0-9 for the length rule); vectors of 2-4 "
          "entries mixing arbitrary numbers with symbols and expressions in 1-2 symbols; histories of 1-2 (thorough 3) operations, "
          "each an element/negative-index/slice/array assignment of arbitrary numbers, or of a symbol, or a binding (empty, partial, "
          "full, to other symbols, by name, of foreign symbols) with arbitrary values; Dicke states of up to 6 (thorough 9) qubits; "
          "bit reversal up to 3 (thorough 4) qubits with arbitrary amplitudes; wide registers (up to 12 qubits, Dicke states too) with "
          "an arbitrary unit vector on three basis states; histories of 5-8 assignments and bindings of 3-6 symbols on up to 16 entries")
OUTSIDE = "longer histories; larger registers; NaN and infinite amplitudes; floating-point rounding in the normalisation test"

T = 1.2e-5  # numpy.isclose(total, 1.0)
a, b, c = sympy.symbols("alpha beta gamma")


def total(S, xs):
    t = S.num(0)
    for x in xs:
        x = S.num(x)
        t = t + x.real * x.real + x.imag * x.imag
    return t.real if hasattr(t, "real") else t


def flat(S, w):
    v = w.amplitudes
    return list(S.arr(v).reshape(-1)) if not has_symbols(w) else list(v)


def has_symbols(w):
    return bool(w.free_symbols)


def entries(S, w):
    return [w[i] for i in range(len(w))]


def numeric_entries(S, w):
    out = []
    for i in range(len(w)):
        x = w[i]
        if isinstance(x, np.ndarray):
            x = x.reshape(-1)[0]
        if not (isinstance(x, sympy.Basic) and x.free_symbols):
            out.append(S.ev(x))
    return out


def invariant(S, w, n, when):
    S.check(len(w) == n and n & (n - 1) == 0 and w.n_qubits == n.bit_length() - 1, f"power-of-two length {when}")
    t = total(S, numeric_entries(S, w))
    if has_symbols(w):
        S.check(t <= 1 + 1e-9, f"numeric entries at most 1 {when}", margin=t > 1.001)
    else:
        S.check(abs(t - 1) <= T, f"normalised {when}", margin=abs(t - 1) > 1e-3)


def snapshot(S, w):
    return [x.reshape(-1)[0] if isinstance(x, np.ndarray) else x for x in entries(S, w)], w.free_symbols


def unchanged(S, w, snap, when):
    now, sym = snapshot(S, w)
    S.check(len(now) == len(snap[0]) and sym == snap[1], f"left as it was {when}")
    if len(now) == len(snap[0]):
        S.check(S.all(*[same(S, x, y) for x, y in zip(snap[0], now)]), f"amplitudes left as they were {when}")


def same(S, x, y):
    sx = isinstance(x, sympy.Basic) and bool(x.free_symbols)
    sy = isinstance(y, sympy.Basic) and bool(y.free_symbols)
    if sx or sy:
        return bool(sx and sy and x == y)
    x, y = S.num(S.ev(x)), S.num(S.ev(y))
    return S.all(S.eq(x.real, y.real), S.eq(x.imag, y.imag))


@scenario()
def numeric_creation(S):
    n = S.choice("n", [1, 2, 4, 8] if S.thorough else [1, 2, 4])
    xs = S.cplxs("z", n, 2) if S.choice("kind", ["complex", "real"]) == "complex" else S.reals("x", n, -2, 2)
    form = S.choice("form", ["array", "list", "tuple"])
    given = {"array": S.array, "list": list, "tuple": tuple}[form](xs)
    w = S.catch(Wavefunction, given)
    t = total(S, xs)
    if isinstance(w, Caught):
        S.check(w.isa(ValueError), "rejected with ValueError")
        S.check(abs(t - 1) > 1e-9, "a unit vector is accepted", margin=abs(t - 1) < 1e-12)
        return
    invariant(S, w, n, "after creation")
    S.close_all(zip(flat(S, w), xs), "amplitudes are those given")


@scenario()
def lengths(S):
    n = S.choice("n", [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16])
    xs = S.unit("u", n) if n else []
    if n > 1 and S.flag("symbolic"):
        xs = [a] + [0] * (n - 1)
    w = S.catch(Wavefunction, xs)
    if n in (1, 2, 4, 8, 16):
        S.check(not isinstance(w, Caught), "power of two accepted")
        invariant(S, w, n, "after creation")
    else:
        S.check(isinstance(w, Caught) and w.isa(ValueError), "length is not a power of two")


MIXED = ["ns", "sn", "ss", "nsnn", "snsn", "ense"]


def mixed(S, pattern, name="x"):
    xs = []
    for i, k in enumerate(pattern):
        if k == "n":
            xs.append(S.number(S.cplx(f"{name}{i}", 2)))
        elif k == "s":
            xs.append([a, b][i % 2])
        else:
            xs.append([a * b, a + 1, sympy.cos(a), 2 * b][i % 4])
    return xs


def sym_vector(S, pattern, name="x"):
    xs = mixed(S, pattern, name)
    return sympy.Matrix(xs) if S.flag("matrix") else xs


@scenario()
def symbolic_creation(S):
    pattern = S.choice("pattern", MIXED)
    xs = sym_vector(S, pattern)
    w = S.catch(Wavefunction, xs)
    t = total(S, [S.ev(x) for x in xs if not x.free_symbols])
    if isinstance(w, Caught):
        S.check(w.isa(ValueError), "rejected with ValueError")
        S.check(t > 1, "numeric entries within 1 are accepted", margin=t < 0.999)
        return
    invariant(S, w, len(xs), "after creation")
    S.check(S.all(*[same(S, x, y) for x, y in zip(xs, entries(S, w))]), "entries are those given")


# ---- histories
def assignment(S, w, i, n):
    """(description, function) of one assignment"""
    kinds = ["element", "negative", "slice", "fancy", "all", "outside", "mask"]
    kind = S.choice(f"kind{i}", kinds if n > 2 else ["element", "slice", "outside"])
    z = lambda k: S.cplx(f"v{i}_{k}", 2)
    if kind == "element":
        j = S.choice(f"at{i}", list(range(n)))
        v = z(0) if S.flag(f"complex{i}") else S.real(f"r{i}", -2, 2)
        return (lambda: w.__setitem__(j, v)), {j: v}
    if kind == "negative":
        j = S.choice(f"at{i}", [-1, -n])
        v = S.real(f"r{i}", -2, 2)
        return (lambda: w.__setitem__(j, v)), {j % n: v}
    if kind == "slice":
        lo = S.choice(f"lo{i}", [0, n - 2])
        vs = [z(0), z(1)]
        return (lambda: w.__setitem__(slice(lo, lo + 2), vs)), {lo: vs[0], lo + 1: vs[1]}
    if kind == "fancy":
        vs = [z(0), z(1)]
        return (lambda: w.__setitem__([n - 1, 0], vs)), {n - 1: vs[0], 0: vs[1]}
    if kind == "mask":
        v = S.real(f"r{i}", -2, 2)
        m = np.array([k % 2 == 1 for k in range(n)])
        return (lambda: w.__setitem__(m, v)), {k: v for k in range(n) if k % 2}
    if kind == "all":
        v = S.real(f"r{i}", -2, 2)
        return (lambda: w.__setitem__(slice(None), v)), {k: v for k in range(n)}
    return (lambda: w.__setitem__(n, S.real(f"r{i}", -1, 1))), None


@scenario(weight=3)
def numeric_histories(S):
    n = S.choice("n", [2, 4])
    w = Wavefunction(S.array(S.unit("u", n, cplx=n == 2)))
    for i in range(S.choice("steps", [1, 2] + ([3] if S.thorough and n == 2 else []))):
        snap = snapshot(S, w)
        do, want = assignment(S, w, i, n)
        r = S.catch(do)
        if want is None:
            S.check(isinstance(r, Caught), "no such element")
        if isinstance(r, Caught):
            unchanged(S, w, snap, "by a rejected assignment")
            if want is not None:
                vals = [S.ev(x) for x in snap[0]]
                for k, v in want.items():
                    vals[k] = v
                t = total(S, vals)
                S.check(abs(t - 1) > 1e-9, "an assignment that keeps the norm is accepted", margin=abs(t - 1) < 1e-12)
        else:
            for k in range(n):
                S.check(same(S, want.get(k, snap[0][k]), entries(S, w)[k]), "exactly the assigned amplitudes change")
        invariant(S, w, n, "after an assignment")


@scenario()
def useless_values(S):
    """values that are not numbers at all, and wrong numbers of values"""
    symbolic = S.flag("symbolic")
    w = Wavefunction([a, 0.3, b, 0.1]) if symbolic else Wavefunction(S.array(S.unit("u", 4, cplx=False)))
    snap = snapshot(S, w)
    idx, val = S.choice("bad", ([] if symbolic else [(0, "x"), (0, None), ("q", 0.1)]) + [(slice(0, 2), [0.1, "x"]), (slice(0, 3), [1.0, 0.0]), (7, 0.1), (slice(0, 2), [0.2, None])]
                        + ([] if symbolic else [(1, [0.1, 0.2])]))
    r = S.catch(w.__setitem__, idx, val)
    S.check(isinstance(r, Caught), "rejected")
    unchanged(S, w, snap, "by an impossible assignment")
    invariant(S, w, 4, "after an impossible assignment")


def binding(S, i):
    v = lambda k: S.number(S.real(f"bind{i}_{k}", -2, 2))
    kind = S.choice(f"map{i}", ["empty", "a", "b", "ab", "rename", "swap", "foreign", "complex", "name"])
    if kind == "complex":
        z = S.cplx(f"bind{i}_z", 2)
        return {a: S.number(z)}
    return {"empty": lambda: {}, "a": lambda: {a: v(0)}, "b": lambda: {b: v(1)}, "ab": lambda: {a: v(0), b: v(1)},
            "rename": lambda: {a: c}, "swap": lambda: {a: b, b: a}, "foreign": lambda: {sympy.Symbol("delta"): v(0)},
            "name": lambda: {"alpha": v(0)}}[kind]()


def normal(m):
    return {(sympy.Symbol(k) if isinstance(k, str) else k): v for k, v in m.items()}


@scenario(weight=4)
def symbolic_histories(S):
    pattern = S.choice("pattern", ["ns", "ss", "snsn"] + (["ense"] if S.thorough else []))
    n = len(pattern)
    xs = mixed(S, pattern)
    made = S.catch(Wavefunction, xs)
    if isinstance(made, Caught):
        return
    w = made
    for i in range(S.choice("steps", [1, 2] + ([3] if S.thorough and n == 2 else []))):
        snap = snapshot(S, w)
        op = S.choice(f"op{i}", ["bind", "number", "symbol"])
        if op == "bind":
            m = binding(S, i)
            r = S.catch(w.bind, m)
            unchanged(S, w, snap, "by a binding")
            if isinstance(r, Caught):
                S.check(r.isa(ValueError), "binding rejected with ValueError")
                continue
            invariant(S, r, n, "after a binding")
            if not any(isinstance(v, sympy.Basic) and v.free_symbols for v in m.values()):
                env = normal(m)
                for x, y in zip(snap[0], snapshot(S, r)[0]):
                    if isinstance(x, sympy.Basic) and x.free_symbols <= set(env):
                        S.close(S.ev(y), S.ev(x, env), "bound entries are the entries evaluated")
                    elif not (isinstance(x, sympy.Basic) and x.free_symbols & set(env)):
                        S.check(same(S, x, y), "other entries stay")
            w = r
        else:
            j = S.choice(f"at{i}", list(range(n)))
            v = S.number(S.cplx(f"v{i}", 2)) if op == "number" else S.choice(f"e{i}", [c, a * b, b])
            if op == "symbol" and not snap[1]:
                r = S.catch(w.__setitem__, j, v)
                S.check(isinstance(r, Caught), "no symbols in a numeric wavefunction")
                unchanged(S, w, snap, "by a rejected assignment")
                continue
            r = S.catch(w.__setitem__, j, v)
            vals = list(snap[0])
            vals[j] = v
            numeric = [S.ev(x) for x in vals if not (isinstance(x, sympy.Basic) and x.free_symbols)]
            t = total(S, numeric)
            if isinstance(r, Caught):
                unchanged(S, w, snap, "by a rejected assignment")
                S.check(r.isa(ValueError), "rejected with ValueError")
                if len(numeric) < n:
                    S.check(t > 1, "an assignment that stays within 1 is accepted", margin=t < 0.999)
                else:
                    S.check(abs(t - 1) > 1e-9, "an assignment that reaches the unit norm is accepted", margin=abs(t - 1) < 1e-12)
            else:
                S.check(S.all(*[same(S, x, y) for x, y in zip(vals, snapshot(S, w)[0])]), "exactly the assigned entry changes")
        invariant(S, w, n, "after an operation")
        if not has_symbols(w):
            p = S.arr(w.get_probabilities()).reshape(-1)
            S.close(sum(p), total(S, flat(S, w)), "probabilities of the operated object")


@scenario()
def probabilities(S):
    n = S.choice("n", [0, 1, 2, 3] if S.thorough else [0, 1, 2])
    xs = S.unit("u", 2**n)
    w = Wavefunction(S.array(xs))
    p = w.get_probabilities()
    S.check(tuple(p.shape) == (2**n,), "one probability per basis state")
    for i in range(2**n):
        S.close(p[i], total(S, [xs[i]]), "squared magnitude")
    S.close(sum(list(p)), 1, "probabilities sum to 1")
    d = w.get_outcome_probs()
    if n:
        for i in range(2**n):
            key = "".join(map(str, reversed(lib.bits(i, n))))
            S.check(key in d, "outcome key")
            S.close(d[key], total(S, [xs[i]]), "outcome probability")
        S.check(len(d) == 2**n, "outcomes")


@scenario()
def zero_states(S):
    n = S.choice("n", [1, 2, 3, 4, 6])
    w = Wavefunction.zero_state(n)
    S.check(len(w) == 2**n and w[0] == 1 and all(w[i] == 0 for i in range(1, 2**n)), "zero state")
    for bad in (0, -1):
        S.raises("no qubits", (ValueError,), Wavefunction.zero_state, bad)


@scenario()
def dicke_states(S):
    n = S.choice("n", list(range(1, 10 if S.thorough else 7)))
    k = S.choice("k", list(range(0, n + 1)))
    w = Wavefunction.dicke_state(n, k)
    count = math.comb(n, k)
    p = w.get_probabilities()
    for i in range(2**n):
        S.close(p[i], 1 / count if bin(i).count("1") == k else 0, f"probability of |{i:0{n}b}> in Dicke({n},{k})")
    S.raises("negative weight", (ValueError,), Wavefunction.dicke_state, n, -1)
    S.raises("weight above the number of qubits", (ValueError,), Wavefunction.dicke_state, n, n + 1)


@scenario()
def bit_reversal(S):
    n = S.choice("n", [0, 1, 2, 3, 4] if S.thorough else [0, 1, 2, 3])
    xs = S.unit("u", 2**n, cplx=n < 4)
    form = S.choice("form", ["array", "list"])
    f = flip_amplitudes(S.array(xs) if form == "array" else list(xs))
    S.check(len(f) == 2**n, "length")
    rev = [lib.index(tuple(reversed(lib.bits(i, n)))) for i in range(2**n)]
    S.close_all([(f[i], xs[rev[i]]) for i in range(2**n)], "bit-reversal permutation")
    S.close_all(zip(flip_amplitudes(f), xs), "its own inverse")
    w = Wavefunction(S.array(xs))
    fw = flip_wavefunction(w)
    invariant(S, fw, 2**n, "after reversal")
    S.close_all([(fw[i], xs[rev[i]]) for i in range(2**n)], "bit-reversal of the wavefunction")
    S.close_all(zip(flat(S, w), xs), "the reversed wavefunction is untouched")
    S.close_all(zip(flat(S, flip_wavefunction(fw)), xs), "its own inverse")


@scenario()
def wide_bit_reversal(S):
    """basis states of wide registers"""
    n = S.choice("n", [5, 6, 8, 10, 11, 12])
    x = S.real("x", -1, 1)
    S.assume(x * x <= 1)
    i = S.choice("i", [0, 1, 5, 2**n - 2, 2 ** (n - 1), 2 ** (n - 1) - 1] + [1 << (k + 1) for k in range(n - 1)])
    v = [0.0] * 2**n
    v[i] = x
    f = flip_amplitudes(v)
    j = lib.index(tuple(reversed(lib.bits(i, n))))
    S.close(f[j], x, "bit-reversal permutation")
    S.check(all(not isinstance(f[k], (complex, sympy.Basic)) and bool(f[k] == 0) for k in range(2**n) if k != j), "the other amplitudes vanish")


SPOTS = {1: (0, 1), 3: (1, 6), 5: (9, 20), 7: (0, 100), 8: (255, 130), 10: (513, 1), 11: (1500, 1027), 12: (2, 4095)}


def sparse_state(S, n, name="w"):
    """n qubits, arbitrary unit vector on two basis states plus a fixed third amplitude"""
    i, j = SPOTS[n]
    k = next(x for x in range(2**n - 3, 0, -1) if x not in (i, j)) if n > 1 else None
    t = S.real(name, -7, 7)
    r = 1 if k is None else 0.8
    v = [0.0] * 2**n
    v[i] = S._mkc(r * S.cos(t), 0.0)
    v[j] = S._mkc(0.0, r * S.sin(t))
    if k is not None:
        v[k] = -0.6
    return v


@scenario()
def wide_probabilities(S):
    """registers up to 12 qubits: probabilities, outcome strings, reversal"""
    n = S.choice("n", [3, 5, 7, 8, 10, 11, 12])
    v = sparse_state(S, n)
    w = Wavefunction(S.array(v))
    invariant(S, w, 2**n, "wide register")
    p = w.get_probabilities()
    S.check(len(p) == 2**n, "one probability per basis state")
    S.close_all([(p[i], total(S, [v[i]])) for i in range(2**n)], "squared magnitudes")
    d = w.get_outcome_probs()
    S.check(len(d) == 2**n and all(len(k) == n for k in d), "one outcome of full length per basis state")
    S.close_all([(d.get(f"{i:0{n}b}"[::-1], -1), total(S, [v[i]])) for i in range(2**n)], "outcome probabilities")
    f = flip_wavefunction(w)
    S.close_all([(f[int(f"{i:0{n}b}"[::-1], 2)], v[i]) for i in range(2**n)], "bit reversal")


@scenario()
def wide_dicke_states(S):
    n = S.choice("n", [7, 8, 9, 10, 11, 12])
    k = S.choice("k", list(range(0, n + 1)))
    p = Wavefunction.dicke_state(n, k).get_probabilities()
    S.check(len(p) == 2**n, "register")
    S.close_all([(p[i], 1 / math.comb(n, k) if bin(i).count("1") == k else 0) for i in range(2**n)], f"probabilities of Dicke({n},{k})", tol=1e-7)


@scenario()
def long_histories(S):
    """5-8 assignments on up to 16 amplitudes, every other one breaking the norm"""
    n = S.choice("n", [4, 8, 16])
    v = [0.0] * n
    t = S.real("t", -7, 7)
    v[1], v[n - 1] = S.cos(t), S.sin(t)
    w = Wavefunction(S.array(v))
    for i in range(S.choice("steps", [5, 8])):
        snap = snapshot(S, w)
        bad = S.choice("first", [0, 1]) == i % 2 if i == 0 else not bad
        u = S.real(f"u{i}", 0.1, 1.4)
        j = (3 * i + 1) % (n - 1)
        kind = i % 3
        k = n - 1 if kind == 2 else j + 1
        idx = slice(j, j + 2) if kind < 2 else [j, n - 1]
        old = total(S, [v[j], v[k]])
        if bad:  # anything the squares of which don't add up to what is replaced
            val = [2 + u, u]
            r = S.catch(w.__setitem__, idx, S.array(val) if kind else val)
            S.check(isinstance(r, Caught) and r.isa(ValueError), "rejected with ValueError")
            unchanged(S, w, snap, "by a rejected assignment")
        else:  # swap with signs: keeps the norm exactly
            val = [-1 * S.num(v[k]), v[j]]
            r = S.catch(w.__setitem__, idx, S.array(val) if kind else val)
            S.check(not isinstance(r, Caught), "an assignment that keeps the norm is accepted")
            v[j], v[k] = val
        S.close_all(zip(flat(S, w), v), "amplitudes after the assignment")
        invariant(S, w, n, "after an assignment")


@scenario()
def many_symbols(S):
    """8-16 entries, 3-9 symbols bound in several steps, numeric entries spread between them"""
    n = S.choice("n", [8, 16])
    m = S.choice("symbols", [3, 6])
    syms = sympy.symbols(f"s0:{m}") if S.flag("plain") else sympy.symbols(" ".join(f"theta_{i}" for i in range(9, 9 + m)))
    t = S.real("t", -7, 7)
    v = [0.0] * n
    free = [p for p in sorted(range(n), key=lambda p: 5 * p % n) if p not in (0, n - 2)]
    for i, x in enumerate(syms):
        v[free[i]] = x if i % 2 == 0 else x / 2
    v[0], v[n - 2] = 0.5 * S.num(S.cos(t)), S._mkc(0.0, 0.5 * S.sin(t))
    w = Wavefunction([S.number(x) if not isinstance(x, sympy.Basic) else x for x in v])
    how = S.choice("how", ["one by one", "halves", "all"])
    groups = {"one by one": [[x] for x in syms], "halves": [syms[::2], syms[1::2]], "all": [syms]}[how]
    u = S.choice("which", ["fits", "too large at the end", "too large at once"])
    val = {x: (0.75 / m) ** 0.5 * (1 if i % 2 == 0 else 2) for i, x in enumerate(syms)}
    if u == "too large at the end":
        val[groups[-1][-1]] = S.real("big", 2.1, 5)
    elif u == "too large at once":
        val[groups[0][0]] = S._mkc(0.0, S.real("big", 2.1, 5))
    for g in groups:
        snap = snapshot(S, w)
        r = S.catch(w.bind, {x: S.number(val[x]) for x in g})
        unchanged(S, w, snap, "by a binding")
        over = (u == "too large at the end" and g is groups[-1]) or (u == "too large at once" and g is groups[0])
        S.check(isinstance(r, Caught) == over, "a binding that breaks the norm is rejected, others are accepted")
        if isinstance(r, Caught):
            S.check(r.isa(ValueError), "rejected with ValueError")
            return
        w = r
        invariant(S, w, n, "after a binding")
    S.check(not has_symbols(w), "everything bound")
    want = [S.ev(x, {s: S.num(y) for s, y in val.items()}) if isinstance(x, sympy.Basic) else x for x in v]
    S.close_all(zip(flat(S, w), want), "bound amplitudes")


@scenario()
def wide_files(S):
    n = S.choice("n", [3, 5, 7, 10])
    if S.symbolic:
        from symx import core

        core.CTX.unsigned_text = True
    v = sparse_state(S, n)
    w = Wavefunction(S.array(v))
    p = S.tmp("wf.json")
    save_wavefunction(w, p)
    back = load_wavefunction(p)
    S.check(len(back) == len(w), "same length")
    S.close_all(zip(flat(S, back), v), "same amplitudes as built")


@scenario()
def files(S):
    n = S.choice("n", [0, 1, 2])
    if S.symbolic:
        from symx import core

        core.CTX.unsigned_text = True
    kind = S.choice("kind", ["complex", "real", "bound", "assigned"] if n == 1 else ["complex", "real"])
    xs = S.unit("u", 2**n, cplx=kind == "complex")
    w = Wavefunction(S.array(xs))
    if kind == "bound":
        w = Wavefunction([a, b]).bind({a: S.number(xs[0]), b: S.number(xs[1])})
    elif kind == "assigned":
        w = Wavefunction([a, b])
        w[0] = S.number(xs[0])
        w[1] = S.number(xs[1])
    p = S.tmp("wf.json")
    save_wavefunction(w, p)
    if S.flag("file"):
        with open(p) as f:
            back = load_wavefunction(f)
    else:
        back = load_wavefunction(p)
    S.check(S.all(*[same(S, x, y) for x, y in zip(snapshot(S, w)[0], snapshot(S, back)[0])]) if len(back) == len(w) else False, "same amplitudes")
    S.close_all(zip(flat(S, back), xs), "same amplitudes as built")
    S.check(back == w, "equal wavefunction")
