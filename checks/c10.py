"""C10: statistics computed from measurements are the exact sample statistics."""
import itertools

import numpy as np

from orquestra.quantum.measurements import (Measurements, check_parity, get_expectation_value_from_frequencies,
                                            get_expectation_values_from_parities, get_parities_from_measurements)
from orquestra.quantum.measurements.measurements import _convert_bitstrings_to_vector
from orquestra.quantum.measurements.parities import check_parity_of_vector
from orquestra.quantum.operators import PauliSum, PauliTerm

from symx.api import scenario

from . import lib

BOUNDS = ("every list of 1-3 zero-bit, 1-4 one-bit, 1-3 two-bit, 1-2 three-bit shots (one more each in thorough) and wide registers up to 70 "
          "bits, times a family of Ising operators with overlapping, repeated, nested, constant and empty terms whose "
          "coefficients are arbitrary reals |c|<=8 (ints and complex numbers too); frequencies: arbitrary positive integer counts up to 10^6 of every "
          "subset of the 2- and 3-bit strings, every marked set; counts 0..3 per bitstring for the conversions; bits recorded as bools, numpy bools and integers")
OUTSIDE = "zero shots (the sample mean is undefined); more shots; rounding"

OPS = {
    1: [[(0,)], [()], [(0,), (0,)], [(), (0,), ()]],
    2: [[(0, 1)], [(1,), (0, 1), ()], [(0,), (1,)], [(0, 1), (0,), (0, 1)]],
    3: [[(0, 2), (1, 2)], [(2,), (), (0, 1, 2)], [(0, 1), (1, 2), (0, 2)], [(1,), (1, 0), (2, 1, 0)], [(2, 0), (2, 0), (1,)]],
}


def shots(S, w, m):
    allb = list(itertools.product((0, 1), repeat=w))
    return [S.choice(f"shot{i}", allb) for i in range(m)]


def sign(b, qs):
    return -1 if sum(b[q] for q in qs) % 2 else 1


def operator(S, supports, kinds=("r",)):
    cs = [S.real(f"c{i}", -8, 8) if kinds == ("r",) or S.choice(f"k{i}", list(kinds)) == "r" else S.int(f"i{i}", -5, 5)
          for i in range(len(supports))]
    return PauliSum([PauliTerm({q: "Z" for q in s}, c) for s, c in zip(supports, cs)]), cs


def statistics(S, bits, supports, cs, ev, n, bessel):
    k = len(supports)
    S.check(len(ev.values) == k, "one value per term")
    S.check(ev.correlations is not None and len(ev.correlations) == 1 and tuple(ev.correlations[0].shape) == (k, k), "correlation matrix")
    S.check(ev.estimator_covariances is not None and len(ev.estimator_covariances) == 1
            and tuple(ev.estimator_covariances[0].shape) == (k, k), "covariance matrix")
    mean = [S.num(c) * sum(sign(b, s) for b in bits) / n for s, c in zip(supports, cs)]
    for i in range(k):
        S.close(ev.values[i], mean[i], f"expectation value of term {supports[i]}")
    for i in range(k):
        for j in range(k):
            corr = S.num(cs[i]) * S.num(cs[j]) * sum(sign(b, supports[i]) * sign(b, supports[j]) for b in bits) / n
            S.close(ev.correlations[0][i, j], corr, f"correlation of {supports[i]} and {supports[j]}")
            S.close(ev.estimator_covariances[0][i, j], (corr - mean[i] * mean[j]) / (n - 1 if bessel else n),
                    f"covariance of {supports[i]} and {supports[j]}, bessel={bessel}")


@scenario(weight=3)
def expectation_values(S):
    w = S.choice("w", [1, 2, 3])
    m = S.choice("m", list(range(1, {1: 4, 2: 3, 3: 2}[w] + 1 + (1 if S.thorough else 0))))
    bits = shots(S, w, m)
    supports = S.choice("op", OPS[w])
    op, cs = operator(S, supports)
    bessel = m > 1 and S.flag("bessel")
    ms = Measurements(list(bits))
    ev = ms.get_expectation_values(op, use_bessel_correction=bessel)
    statistics(S, bits, supports, cs, ev, m, bessel)
    S.check(ms.bitstrings == bits, "measurements unchanged")


@scenario()
def kinds_and_shapes(S):
    """single terms, the empty sum, integer coefficients, defaults"""
    bits = shots(S, 2, 2)
    form = S.choice("form", ["term", "empty", "ints", "default", "complex"])
    ms = Measurements(list(bits))
    if form == "term":
        s = S.choice("s", [(), (0,), (1,), (0, 1)])
        c = S.real("c", -8, 8)
        ev = ms.get_expectation_values(PauliTerm({q: "Z" for q in s}, c))
        statistics(S, bits, [s], [c], ev, 2, False)
    elif form == "empty":
        ev = ms.get_expectation_values(PauliSum())
        statistics(S, bits, [], [], ev, 2, False)
    elif form == "complex":
        sup = [(0,), (0, 1), (), (0, 1)]
        cs = [S.cplx(f"z{i}", 8) for i in range(3)] + [1j]
        op = PauliSum([PauliTerm({q: "Z" for q in s}, c) for s, c in zip(sup, cs)])
        bessel = S.flag("bessel")
        statistics(S, bits, sup, cs, ms.get_expectation_values(op, bessel), 2, bessel)
    elif form == "ints":
        sup = [(0,), (0, 1), ()]
        op, cs = operator(S, sup, ("r", "i"))
        statistics(S, bits, sup, cs, ms.get_expectation_values(op, True), 2, True)
    else:
        sup = [(1,), ()]
        op = PauliSum([PauliTerm("Z1"), PauliTerm("I0")])
        statistics(S, bits, sup, [1.0, 1.0], ms.get_expectation_values(op), 2, False)


WIDE = [(8, (0, 7), (7,)), (20, (3, 19), (19, 0)), (33, (32,), (31, 32)), (64, (0, 63), (63,)), (70, (65, 69), (0, 69))]


@scenario()
def wide_registers(S):
    w, a, b = S.choice("wide", WIDE)
    bits = []
    for i in range(S.choice("m", [1, 2, 3])):
        v = [0] * w
        for q in set(a) | set(b):
            v[q] = S.choice(f"b{i}_{q}", [0, 1])
        if S.thorough and S.flag(f"other{i}"):
            v[w // 2] = 1
        bits.append(tuple(v))
    sup = [a, b, ()]
    op, cs = operator(S, sup)
    statistics(S, bits, sup, cs, Measurements(list(bits)).get_expectation_values(op), len(bits), False)


@scenario()
def not_ising(S):
    ms = Measurements([(0, 1), (1, 1)])
    for op in (PauliTerm("X0"), PauliTerm("Y1", S.real("c")), PauliTerm("Z0*X1"), PauliSum([PauliTerm("Z0"), PauliTerm("Y1")])):
        S.raises("operator with X or Y", (TypeError,), ms.get_expectation_values, op)
        S.raises("operator with X or Y", (TypeError,), get_parities_from_measurements, ms.bitstrings, op)


def subsets(xs):
    return [c for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)]


@scenario(weight=2)
def frequencies(S):
    """arbitrary counts"""
    w = S.choice("w", [1, 2, 3])
    strs = ["".join(map(str, b)) for b in itertools.product((0, 1), repeat=w)]
    if w < 3:
        keys = S.choice("keys", [k for k in subsets(strs) if k])
    else:
        keys = S.choice("keys", [k for k in subsets(strs) if k] if S.thorough else [tuple(strs), ("101",), ("000", "011", "110"), tuple(reversed(strs)), ("111", "001")])
    counts = {k: S.int(f"n{k}", 1, 10**6) for k in keys}
    marked = S.choice("marked", subsets(range(w)))
    form = S.choice("form", ["set", "list"]) if marked else "set"
    total = 0
    acc = 0
    for k, c in counts.items():
        total = total + c
        acc = acc + c * sign([int(x) for x in k], marked)
    r = get_expectation_value_from_frequencies(set(marked) if form == "set" else list(marked), counts)
    S.close(r * total, acc, f"mean eigenvalue on {marked}", tol=1e-5)


@scenario()
def counts_conversion(S):
    """counts -> measurements -> counts, adding counts"""
    w = S.choice("w", [1, 2, 3])
    strs = ["".join(map(str, b)) for b in itertools.product((0, 1), repeat=w)]
    if w == 3:
        strs = ["000", "011", "100", "110"]
    strs = strs[::-1] if S.flag("reversed") else strs
    counts = {k: S.choice("n" + k, [0, 1, 3] if len(strs) > 2 and not S.thorough else [0, 1, 2, 3]) for k in strs}
    nonzero = {k: v for k, v in counts.items() if v}
    given = dict(counts) if S.flag("zeros") else dict(nonzero)
    before = dict(given)
    m = Measurements.from_counts(given)
    S.check(given == before, "argument unchanged")
    S.check(len(m.bitstrings) == sum(counts.values()), "as many shots as counted")
    S.check(m.get_counts() == nonzero, "reading the counts back")
    S.check(all(isinstance(b, tuple) and len(b) == w for b in m.bitstrings), "bitstrings are tuples of that width")
    again = Measurements.from_counts(m.get_counts())
    S.check(sorted(again.bitstrings) == sorted(m.bitstrings), "inverse")
    m.add_counts({strs[0]: 2, strs[-1]: 1})
    want = dict(nonzero)
    want[strs[0]] = want.get(strs[0], 0) + 2
    want[strs[-1]] = want.get(strs[-1], 0) + 1
    S.check(m.get_counts() == want and len(m.bitstrings) == sum(want.values()), "added counts")


@scenario()
def counts_of_lists(S):
    w = S.choice("w", [1, 2, 3])
    m = S.choice("m", list(range(0, {1: 4, 2: 3, 3: 2}[w] + (2 if S.thorough else 1))))
    bits = shots(S, w, m)
    ms = Measurements(list(bits))
    c = ms.get_counts()
    S.check(sum(c.values()) == m, "counts sum to the number of shots")
    S.check(all(c[k] == sum("".join(map(str, b)) == k for b in bits) for k in c), "count of each bitstring")
    if not m:
        return
    S.check(sorted(Measurements.from_counts(c).bitstrings) == sorted(bits), "from_counts inverts get_counts")
    d = ms.get_distribution().distribution_dict
    S.check({tuple(int(x) for x in k) for k in d} == set(bits), "support of the empirical distribution")
    for k, p in d.items():
        S.close(p, sum(tuple(int(x) for x in k) == b for b in bits) / m, "empirical probability")


@scenario(weight=2)
def parities(S):
    w = S.choice("w", [1, 2, 3])
    m = S.choice("m", list(range(1, {1: 4, 2: 3, 3: 2}[w] + 1 + (1 if S.thorough else 0))))
    bits = shots(S, w, m)
    sup = S.choice("op", OPS[w])
    op, cs = operator(S, sup)
    p = get_parities_from_measurements(list(bits), op)
    S.check(tuple(p.values.shape) == (len(sup), 2), "tallies per term")
    for i, s in enumerate(sup):
        even = sum(sign(b, s) == 1 for b in bits)
        S.close(p.values[i][0], even, f"even parity on {s}")
        S.close(p.values[i][1], m - even, f"odd parity on {s}")
        for j, t in enumerate(sup):
            even = sum(sign(b, s) * sign(b, t) == 1 for b in bits)
            S.close(p.correlations[0][i, j][0], even, f"even parity of {s} and {t}")
            S.close(p.correlations[0][i, j][1], m - even, f"odd parity of {s} and {t}")
    ev = get_expectation_values_from_parities(p)
    for i, s in enumerate(sup):
        S.close(ev.values[i], sum(sign(b, s) for b in bits) / m, "mean from the tallies")


def many_shots(kind):
    """long lists of shots: all outcomes, repeated blocks, one rare outcome, many shots of one kind"""
    if kind == "all5":
        return 5, list(itertools.product((0, 1), repeat=5))
    if kind == "all7":
        return 7, list(itertools.product((0, 1), repeat=7))[::-1]
    if kind == "rare":
        return 3, [(0, 1, 1)] * 300 + [(1, 0, 0)] + [(0, 0, 0)] * 41
    if kind == "uneven":
        return 6, [b for i, b in enumerate(itertools.product((0, 1), repeat=6)) for _ in range(1 + i % 5)]
    if kind == "huge":
        return 2, [(0, 1)] * 70000 + [(1, 1)] * 66000 + [(0, 0)] * 33000
    return 1, [(1,)] * 1025 + [(0,)] * 1024


@scenario()
def many_outcomes(S):
    """lists far longer than the symbolic ones: arbitrary coefficients, fixed shots"""
    w, bits = many_shots(S.choice("kind", ["all5", "all7", "rare", "uneven", "block", "huge"]))
    sup = [(), (0,), (w - 1,), (0, w - 1) if w > 1 else (0,), tuple(range(w))]
    op, cs = operator(S, sup)
    ms = Measurements(list(bits))
    counts = {}
    for b in bits:
        k = "".join(map(str, b))
        counts[k] = counts.get(k, 0) + 1
    what = S.choice("what", ["values", "parities", "counts"])
    if what == "values":
        bessel = S.flag("bessel")
        statistics(S, bits, sup, cs, ms.get_expectation_values(op, bessel), len(bits), bessel)
    elif what == "parities":
        p = get_parities_from_measurements(list(bits), op)
        for i, s in enumerate(sup):
            even = sum(sign(b, s) == 1 for b in bits)
            S.close(p.values[i][0], even, f"even parity on {s}")
            S.close(p.values[i][1], len(bits) - even, f"odd parity on {s}")
            for j, t in enumerate(sup):
                even = sum(sign(b, s) * sign(b, t) == 1 for b in bits)
                S.close(p.correlations[0][i, j][0], even, f"even parity of {s} and {t}")
                S.close(p.correlations[0][i, j][1], len(bits) - even, f"odd parity of {s} and {t}")
        ev = get_expectation_values_from_parities(p)
        for i, s in enumerate(sup):
            S.close(ev.values[i], sum(sign(b, s) for b in bits) / len(bits), "mean from the tallies")
    else:
        S.check(dict(ms.get_counts()) == counts, "counts")
        back = Measurements.from_counts(counts)
        S.check(sorted(back.bitstrings) == sorted(bits), "bitstrings from counts")
        d = ms.get_distribution().distribution_dict
        S.close_all([(d.get(tuple(map(int, k)), 0), v / len(bits)) for k, v in counts.items()], "empirical distribution")
        for s in sup:
            S.close(get_expectation_value_from_frequencies(s, counts), sum(sign(b, s) for b in bits) / len(bits), "mean from counts")


@scenario()
def parity_checks(S):
    """scalar and vectorised parity of marked qubits, any width and marking"""
    w = S.choice("w", [1, 2, 3, 4] if S.thorough else [1, 2, 3])
    b = S.choice("b", list(itertools.product((0, 1), repeat=w)))
    other = S.choice("o", [tuple([0] * w), tuple([1] * w), b])
    for marked in subsets(range(w)):
        even = sum(b[q] for q in marked) % 2 == 0
        S.check(check_parity(b, marked) == even, "parity of a tuple")
        S.check(check_parity("".join(map(str, b)), marked) == even, "parity of a string")
        v = check_parity_of_vector(_convert_bitstrings_to_vector(["".join(map(str, b)), "".join(map(str, other))]), set(marked))
        S.check(len(v) == 2, "one parity per bitstring")
        S.close(v[0], 1 if even else 0, "vectorised parity")
        S.close(v[1], 1 if sum(other[q] for q in marked) % 2 == 0 else 0, "vectorised parity")


@scenario()
def no_qubits(S):
    """shots of a register without qubits"""
    m = S.choice("m", [1, 2, 3])
    bits = [()] * m
    cs = [S.real("c0", -8, 8), S.real("c1", -8, 8)]
    ms = Measurements(list(bits))
    S.check(ms.get_counts() == {"": m}, "counts")
    S.check(Measurements.from_counts({"": m}).bitstrings == bits, "from counts")
    S.check(Measurements.from_counts(ms.get_counts()).bitstrings == bits, "inverse")
    d = ms.get_distribution().distribution_dict
    S.check(set(d) == {()}, "support")
    S.close(d[()], 1, "probability")
    k = S.choice("terms", [1, 2])
    op = PauliSum([PauliTerm("I0", c) for c in cs[:k]])
    statistics(S, bits, [()] * k, cs[:k], ms.get_expectation_values(op), m, False)
    S.close(get_expectation_value_from_frequencies([], {"": m}), 1, "mean of an empty marking")
    p = get_parities_from_measurements(list(bits), op)
    for i in range(k):
        S.close(p.values[i][0], m, "all even")
        S.close(p.values[i][1], 0, "none odd")


BITKINDS = {"int": int, "bool": bool, "float": float, "uint8": np.uint8, "int64": np.int64, "npbool": np.bool_}


@scenario()
def kinds_of_bits(S):
    """shots recorded with any kind of 0/1 number; what was counted before doesn't matter"""
    w = S.choice("w", [1, 2, 3])
    bits = shots(S, w, 2)
    kinds = [S.choice(f"kind{i}", list(BITKINDS)) for i in range(2)]
    recorded = [tuple(BITKINDS[k](x) for x in b) for b, k in zip(bits, kinds)]
    if S.flag("one at a time"):
        for i, r in enumerate(recorded):
            S.check(Measurements([r]).get_counts() == {"".join(map(str, bits[i])): 1}, "counts of one shot", info=(kinds[i], bits[i]))
    ms = Measurements(list(recorded))
    counts = {}
    for b in bits:
        s = "".join(map(str, b))
        counts[s] = counts.get(s, 0) + 1
    S.check(ms.get_counts() == counts, "counts", info=(kinds, ms.get_counts()))
    d = ms.get_distribution().distribution_dict
    S.check(set(d) == set(bits), "support of the distribution", info=(kinds, d))
    S.close_all([(d[b], counts["".join(map(str, b))] / 2) for b in set(bits)], "distribution")
    sup = [tuple(range(w)), (0,)]
    op, cs = operator(S, sup)
    statistics(S, bits, sup, cs, ms.get_expectation_values(op), 2, False)
    p = get_parities_from_measurements(list(recorded), op)
    for i, s in enumerate(sup):
        even = sum(sign(b, s) == 1 for b in bits)
        S.close_all([(p.values[i][0], even), (p.values[i][1], 2 - even)], "parity tallies")
