"""C13: splitting, batching and recombining shots never loses or invents a shot."""
import itertools
from fractions import Fraction

from orquestra.quantum.circuits import combine_bitstrings, combine_measurement_counts, expand_sample_sizes, split_into_batches
from orquestra.quantum.distributions import MeasurementOutcomeDistribution
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.utils import scale_and_discretize

from symx import core
from symx.api import scenario

BOUNDS = ("0-3 circuits with arbitrary integer sample counts and maxima from 1 to 10^20 such that each count needs at most 4 "
          "(thorough 7) copies, one circuit with up to 12 (thorough 40) copies (integer true division follows IEEE double rounding); 0-7 circuits batched with arbitrary counts and "
          "any maximum batch size 1-8, up to 17 circuits; 0-3 groups of 1-3 results, some with up to 30 with arbitrary counts and up to 17 (33) outcomes; 101 and 257 (1030) copies for any maximum up to 10^6; distributions over 1-3 (thorough 4) outcomes "
          "with arbitrary probabilities for 1-4 (thorough 7) shots, every random draw the generator may make; 1-4 arbitrary "
          "positive weights, totals 0-6 (thorough 12) and totals up to 10^20 for exactly representable weights")
OUTSIDE = ("more copies/circuits/outcomes/shots; rounding in weights and probabilities; distributions that are not normalised; "
           "draws after the third are assumed to repeat an earlier one")

HUGE = 10**20


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


@scenario(weight=3)
def expand(S):
    if S.symbolic:
        core.FP_DIV[0] = True
    copies = 7 if S.thorough else 4
    k = S.choice("circuits", [0, 1, 2, 3] if S.thorough else [0, 1, 2])
    m = S.choice("max", ["any", 1, 2, 1000])
    m = S.int("m", 1, HUGE) if m == "any" else m
    if k >= 2 and not S.thorough:
        copies = 3
    if k == 3:
        copies = 3
    ns = [S.int(f"n{i}", 1, HUGE) for i in range(k)]
    for n in ns:
        S.assume(n <= m * copies)
    cs = [f"circuit{i}" for i in range(k)]
    new, counts, mult = expand_sample_sizes(cs, ns, m)
    new, counts, mult = list(new), list(counts), list(mult)
    S.check(len(mult) == k, "one multiplicity per circuit")
    S.check(len(new) == len(counts), "one sample count per copy")
    S.check(bool(total(mult) == len(new)), "as many copies as the multiplicities say")
    for n in counts:
        S.check(S.all(1 <= n, n <= m), "every copy asks for between 1 and the maximum")
    pos = 0
    for i in range(k):
        q = int(mult[i])
        S.check(new[pos:pos + q] == [cs[i]] * q, "copies of each circuit, in order")
        S.check(S.eq(total(counts[pos:pos + q]), ns[i]), "sample counts of the copies sum to the request")
        pos += q
    # run the copies and combine
    measured = []
    for j, n in enumerate(counts):
        ones = S.int(f"ones{j}", 0, HUGE)
        S.assume(ones <= n)
        measured.append({"0": n - ones, "1": ones})
    back = combine_measurement_counts(measured, mult)
    S.check(len(back) == k, "one combined result per circuit")
    for i in range(k):
        S.check(S.eq(total(back[i].values()), ns[i]), "combined shots equal the request")


@scenario()
def expand_many(S):
    """many copies of one or two circuits"""
    if S.symbolic:
        core.FP_DIV[0] = True
    first = S.choice("first", [None, 1, 3])
    copies = (40 if S.thorough else 12) if first is None else 6
    m = S.int("m", 1, 10**6)
    n = S.int("n", 1, 10**8)
    S.assume(n <= m * copies)
    ns = [n] if first is None else [first * m, n]
    cs = ["a"] if first is None else ["z", "a"]
    new, counts, mult = expand_sample_sizes(cs, ns, m)
    new, counts, mult = list(new), list(counts), list(mult)
    S.check(len(mult) == len(cs) and len(new) == len(counts) and bool(total(mult) == len(new)), "as many copies as the multiplicities say")
    S.check(S.all(True, *[S.all(1 <= x, x <= m) for x in counts]), "every copy asks for between 1 and the maximum")
    pos = 0
    for c, want, q in zip(cs, ns, [int(q) for q in mult]):
        S.check(new[pos:pos + q] == [c] * q, "copies of each circuit, in order")
        S.check(S.eq(total(counts[pos:pos + q]), want), "sample counts of the copies sum to the request")
        pos += q
    back = combine_measurement_counts([{"0": x} for x in counts], mult)
    S.check(len(back) == len(cs) and all(set(b) == {"0"} for b in back), "one combined result per circuit")
    for b, want in zip(back, ns):
        S.check(S.eq(b["0"], want), "combined shots equal the request")


@scenario()
def expand_lots(S):
    """hundreds of copies: any maximum, any remainder"""
    q = S.choice("copies", [101, 257, 1030] if S.thorough else [101, 257])
    m = S.int("m", 1, 10**6)
    r = S.int("r", 1, 10**6)
    S.assume(r <= m)
    ns = [(q - 1) * m + r, r]
    new, counts, mult = expand_sample_sizes(["a", "b"], ns, m)
    new, counts, mult = list(new), list(counts), list(mult)
    S.check(len(mult) == 2 and len(new) == len(counts) and bool(total(mult) == len(new)), "as many copies as the multiplicities say")
    S.check(S.all(True, *[S.all(1 <= x, x <= m) for x in counts]), "every copy asks for between 1 and the maximum")
    k = int(mult[0])
    S.check(new[:k] == ["a"] * k and new[k:] == ["b"] * int(mult[1]), "copies of each circuit, in order")
    S.check(S.all(S.eq(total(counts[:k]), ns[0]), S.eq(total(counts[k:]), r)), "sample counts of the copies sum to the request")
    back = combine_measurement_counts([{"01": x} for x in counts], mult)
    S.check(len(back) == 2 and S.all(S.eq(back[0]["01"], ns[0]), S.eq(back[1]["01"], r)), "combined shots equal the request")
    shots = [["01", "10"][:1 + (j % 3 == 0)] for j in range(len(new))]
    back = combine_bitstrings(shots, mult)
    S.check(back == [[b for s in shots[:k] for b in s], [b for s in shots[k:] for b in s]], "no shot is lost, invented or moved")


@scenario()
def combine_wide(S):
    """results with many different outcomes"""
    n = S.choice("outcomes", [9, 16, 33] if S.thorough else [9, 17])
    keys = [format(i, "06b") for i in range(n)]
    groups = S.choice("groups", [[2], [1, 3], [2, 2]])
    given = []
    for j in range(sum(groups)):
        ks = keys[j % 2:] if j % 3 else keys[::-1]
        given.append({k: S.int(f"c{j}_{k}", 0, HUGE) for k in ks})
    want, pos = [], 0
    for g in groups:
        want.append({k: total(e.get(k, 0) for e in given[pos:pos + g]) for k in keys if any(k in e for e in given[pos:pos + g])})
        pos += g
    back = combine_measurement_counts(given, groups)
    S.check(len(back) == len(want) and all(set(a) == set(b) for a, b in zip(back, want)), "one combined result per circuit")
    S.check(S.all(True, *[S.eq(a[k], b[k]) for a, b in zip(back, want) for k in b]), "counts add up")


@scenario()
def combine_repeated(S):
    """the copies measure the same bitstrings"""
    g = S.choice("group", [2, 4, 5, 9])
    shots = [[S.choice(f"b{i}", ["00", "01"]) if i in (0, g - 1) else "01", "00"][:1 + i % 2] for i in range(g)] + [["00"], ["00", "00"]]
    back = combine_bitstrings(shots, [g, 2])
    S.check(back == [[b for s in shots[:g] for b in s], ["00"] * 3], "no shot is lost, invented or moved")


@scenario()
def combine_many(S):
    """long groups, arbitrary counts"""
    groups = S.choice("groups", [[1, 9, 2], [12], [4, 4, 4, 4], [1] * 11, [20, 1]] + ([[30, 7, 1, 9]] if S.thorough else []))
    given = [{"00": S.int(f"a{i}", 0, HUGE), ("01", "10")[i % 2]: S.int(f"b{i}", 0, HUGE)} for i in range(sum(groups))]
    before = [dict(e) for e in given]
    back = combine_measurement_counts(given, list(groups))
    S.check(len(back) == len(groups), "one result per group")
    pos, pairs = 0, []
    for g, b in zip(groups, back):
        part = before[pos:pos + g]
        pos += g
        keys = {k for e in part for k in e}
        S.check(set(b) <= keys, "no outcome is invented")
        pairs += [S.eq(b.get(k, 0), total(e.get(k, 0) for e in part)) for k in sorted(keys)]
    S.check(S.all(True, *pairs), "counts add up")
    shots = [[f"{i}.{s}" for s in range(1 + i % 3)] for i in range(sum(groups))]
    back = combine_bitstrings(shots, list(groups))
    S.check([x for b in back for x in b] == [x for e in shots for x in e], "no shot is lost, invented or moved")
    S.check(all(x.split(".")[0] in map(str, range(sum(groups[:i]), sum(groups[:i + 1]))) for i, b in enumerate(back) for x in b), "shots stay with their circuit")


@scenario()
def batches_many(S):
    k = S.choice("circuits", [9, 12, 17])
    b = S.choice("size", [1, 2, 5, 8, 9, 10, 16, 17, 18, 100])
    ns = [S.int(f"n{i}", 1, HUGE) if i in ((0, 3, 8, 11, 16) if S.thorough else (1, 8)) else 5 + i for i in range(k)]
    got = list(split_into_batches([f"c{i}" for i in range(k)], ns, b))
    S.check([c for chunk, _ in got for c in chunk] == [f"c{i}" for i in range(k)], "every circuit exactly once, in order")
    pos = 0
    for chunk, n in got:
        S.check(1 <= len(chunk) <= b, "batch size")
        S.check(S.all(*[n >= x for x in ns[pos:pos + len(chunk)]]), "at least as many samples as asked for")
        pos += len(chunk)


@scenario()
def expand_bitstrings(S):
    """small counts, so that the shots themselves can be listed"""
    k = S.choice("circuits", [1, 2])
    m = S.choice("m", [1, 2, 3])
    ns = [S.choice(f"n{i}", list(range(1, 7))) for i in range(k)]
    cs = [object() for _ in range(k)]
    new, counts, mult = expand_sample_sizes(tuple(cs), tuple(ns), m)
    shots = [[f"{cs.index(c)}-{j}-{s}" for s in range(n)] for j, (c, n) in enumerate(zip(new, counts))]
    back = combine_bitstrings(shots, mult)
    S.check([len(b) for b in back] == ns, "combined shots equal the request")
    S.check([s for b in back for s in b] == [s for b in shots for s in b], "no shot is lost, invented or moved")
    S.check(all(s.startswith(f"{i}-") for i, b in enumerate(back) for s in b), "shots stay with their circuit")


@scenario()
def combine(S):
    groups = S.choice("groups", [g for n in range(0, 4) for g in itertools.product((1, 2, 3), repeat=n) if sum(g) <= (6 if S.thorough else 5)])
    keys = ["0", "1", "01", "10"]
    every = []
    for i, g in enumerate(groups):
        for j in range(g):
            ks = [keys[(i + j) % 4], keys[(i + 2 * j + 1) % 4]] if (i + j) % 3 else [keys[j % 4]]
            every.append({k: S.int(f"c{i}_{j}_{k}", 0, 10**9) for k in ks})
    before = [dict(e) for e in every]
    back = combine_measurement_counts(every, list(groups))
    S.check(len(back) == len(groups), "one result per group")
    pos = 0
    for g, b in zip(groups, back):
        part = before[pos:pos + g]
        pos += g
        S.check(set(b) <= {k for e in part for k in e}, "no outcome is invented")
        for k in sorted({k for e in part for k in e}):
            S.check(S.eq(b.get(k, 0), total(e.get(k, 0) for e in part)), "counts add up")
    S.check(len(every) == len(before) and all(set(e) == set(f) for e, f in zip(every, before)), "results given are unchanged")
    for e, f in zip(every, before):
        S.check(S.all(True, *[S.eq(e[k], f[k]) for k in f]), "results given are unchanged")
    wrong = list(groups) + [1]
    S.raises("multiplicities that do not match", (ValueError,), combine_measurement_counts, every, wrong)
    S.raises("multiplicities that do not match", (ValueError,), combine_bitstrings, [["0"]] * len(every), wrong)


@scenario()
def combine_lists(S):
    groups = S.choice("groups", [g for n in range(0, 4) for g in itertools.product((1, 2, 3), repeat=n) if sum(g) <= 6])
    shots = [[f"{i}.{s}" for s in range(S.choice(f"k{i}", [0, 2]))] for i in range(sum(groups))]
    before = [list(s) for s in shots]
    back = combine_bitstrings(shots, list(groups))
    pos = 0
    S.check(len(back) == len(groups), "one result per group")
    for g, b in zip(groups, back):
        S.check(list(b) == [s for e in before[pos:pos + g] for s in e], "bitstrings of the copies, in order")
        pos += g
    S.check(shots == before, "results given are unchanged")


@scenario(weight=2)
def batches(S):
    k = S.choice("circuits", list(range(0, 8 if S.thorough else 6)))
    b = S.choice("size", list(range(1, 9 if S.thorough else 7)))
    ns = [S.int(f"n{i}", 1, HUGE) for i in range(k)]
    cs = [f"c{i}" for i in range(k)]
    form = S.choice("form", [list, tuple])
    got = list(split_into_batches(form(cs), form(ns), b))
    S.check([c for chunk, _ in got for c in chunk] == cs, "every circuit exactly once, in order")
    pos = 0
    for chunk, n in got:
        S.check(1 <= len(chunk) <= b, "batch size")
        S.check(S.all(*[n >= x for x in ns[pos:pos + len(chunk)]]), "at least as many samples as asked for")
        pos += len(chunk)
    S.raises("no batch size", (ValueError,), split_into_batches, cs, ns, 0)
    S.raises("lengths that do not match", (ValueError,), split_into_batches, cs, ns + [1], b)


@scenario()
def batches_symbolic_size(S):
    """any maximum batch size"""
    b = S.int("b", 1, HUGE)
    k = S.choice("circuits", [0, 1, 2, 4])
    ns = [S.int(f"n{i}", 1, HUGE) for i in range(k)]
    if S.symbolic:
        b = int(S_small(S, b, k))
    got = list(split_into_batches(list(range(k)), ns, b))
    S.check([c for chunk, _ in got for c in chunk] == list(range(k)), "every circuit exactly once, in order")
    S.check(all(1 <= len(chunk) <= b for chunk, _ in got), "batch size")


def S_small(S, b, k):
    """itertools.islice needs a machine integer: sizes above the number of circuits behave alike (sys.maxsize stands for them)"""
    for i in range(1, k + 2):
        if bool(b == i):
            return i
    return 2**62


@scenario(weight=4)
def representing(S):
    S.rng_free = 3
    n = S.choice("outcomes", [1, 2, 3, 4] if S.thorough else [1, 2, 3])
    shots = S.choice("shots", list(range(1, (8 if n < 4 else 4) if S.thorough else 5)))
    keys = {1: [(0,)], 2: [(0,), (1,)], 3: [(0, 0), (0, 1), (1, 1)], 4: [(0, 0), (0, 1), (1, 0), (1, 1)]}[n]
    ps = [S.real(f"p{i}", 0, 1) for i in range(n - 1)]
    last = 1 - total(ps)
    S.assume(last >= 0)
    ps = ps + [last]
    form = S.choice("form", ["tuples", "strings"])
    d = MeasurementOutcomeDistribution({(k if form == "tuples" else "".join(map(str, k))): p for k, p in zip(keys, ps)})
    m = Measurements.get_measurements_representing_distribution(d, shots)
    S.check(isinstance(m, Measurements), "type")
    S.check(len(m.bitstrings) == shots, "exactly the requested number of shots")
    for b in set(m.bitstrings):
        S.check(b in keys, "outcomes of the distribution")
        if b in keys:
            S.check(ps[keys.index(b)] > 0, "outcomes with a positive probability")


SPECIAL = [
    ({(0,): 0.5, (1,): 0.5}, [1, 2, 3, 4, 5, 7]),
    ({(0, 0): 0.25, (0, 1): 0.25, (1, 0): 0.25, (1, 1): 0.25}, [1, 2, 3, 5, 6]),
    ({(0, 0): 0.75, (1, 1): 0.25}, [1, 2, 3, 6]),
    ({(0, 0, 0): 0.3, (0, 1, 0): 0.3, (1, 1, 1): 0.4, (0, 0, 1): 0.0}, [1, 2, 3, 5, 25]),
    ({(0, 0): 1 / 3, (0, 1): 1 / 3, (1, 0): 1 / 3}, [1, 2, 4, 5, 10]),
    ({(0, 2): 0.5, (3, 1): 0.5}, [1, 3]),
]
SEVEN = {(i // 4, i // 2 % 2, i % 2): 1 / 7 for i in range(7)}  # three shots: nothing is placed by rounding, three are topped up
SIX = {(i // 4, i // 2 % 2, i % 2): 1 / 6 for i in range(6)}  # nine shots: rounding places twelve, three are eliminated


@scenario()
def representing_top_up(S):
    """several shots added or eliminated, the same outcome possibly every time"""
    S.rng_free = 3
    dist, n = S.choice("dist", [(SEVEN, 3), (SEVEN, 2), (SIX, 9), (SIX, 3), (SIX, 15), ({(0,): 0.45, (1,): 0.55}, 10), ({(0, 0): 0.95, (1, 1): 0.05}, 10)])
    m = Measurements.get_measurements_representing_distribution(MeasurementOutcomeDistribution(dict(dist)), n)
    S.check(len(m.bitstrings) == n, "exactly the requested number of shots")
    S.check(all(dist.get(b, 0) > 0 for b in m.bitstrings), "outcomes with a positive probability")


@scenario()
def representing_ties(S):
    """distributions whose rounding is exactly at a tie, with every draw"""
    S.rng_free = 4
    dist, ns = S.choice("dist", SPECIAL)
    n = S.choice("shots", ns)
    m = Measurements.get_measurements_representing_distribution(MeasurementOutcomeDistribution(dict(dist)), n)
    S.check(len(m.bitstrings) == n, "exactly the requested number of shots")
    S.check(all(dist.get(b, 0) > 0 for b in m.bitstrings), "outcomes with a positive probability")


@scenario(weight=4)
def scaled_weights(S):
    k = S.choice("weights", [1, 2, 3, 4] if S.thorough else [1, 2, 3])
    t = S.choice("total", list(range(0, (13 if k < 4 else 6) if S.thorough else 7)))
    ws = [S.int(f"i{i}", 1, 1000) for i in range(k)] if k < 3 and S.flag("ints") else [S.real(f"w{i}", 0.001, 1000) for i in range(k)]
    given = list(ws)
    r = scale_and_discretize(given, t)
    check_scaled(S, ws, t, r)


def check_scaled(S, ws, t, r):
    S.check(len(r) == len(ws), "one integer per weight")
    S.check(all(isinstance(x, int) or (S.symbolic and isinstance(x, core.INum)) for x in r), "integers")
    S.check(S.eq(total(r), t), "sum to the total")
    W = total(ws)
    for w, x in zip(ws, r):
        # |x - w t / W| <= 1, multiplied by W > 0
        S.check(S.all(x * W - w * t <= W * (1 + 1e-9), w * t - x * W <= W * (1 + 1e-9)), "within one of the proportional share")


@scenario()
def scaled_large_totals(S):
    if S.symbolic:
        core.FP_DIV[0] = core.FP_FLOAT[0] = True
    ws = S.choice("weights", [[1], [1, 1], [3, 1], [1.0, 2.0], [0.5, 0.25, 0.25], [7, 2, 5], [1, 2], [1.0, 1.0, 1.0]])
    t = S.int("t", 0, HUGE)
    check_scaled(S, ws, t, scale_and_discretize(list(ws), t))


@scenario()
def scaled_huge_totals(S):
    """totals no float represents"""
    ws = S.choice("weights", [[1, 1], [3, 1], [1.0, 2.0], [0.5, 0.25, 0.25], [7, 2, 5], [0.1, 0.2, 0.7], [1.0] * 7])
    t = S.choice("base", [2**53, 10**17, 2**60, 10**20, 3 * 10**30]) + S.choice("offset", [0, 1, 3, 514])
    check_scaled(S, [Fraction(w) for w in ws], t, scale_and_discretize(list(ws), t))


@scenario()
def scaled_many(S):
    """many weights"""
    k = S.choice("weights", [9, 17, 40] if S.thorough else [9, 17])
    form = S.choice("form", ["equal", "rising", "one"])
    ws = {"equal": [0.1] * k, "rising": [i + 1 for i in range(k)], "one": [1e-6] * (k - 1) + [5.0]}[form]
    t = S.choice("total", [0, 1, k - 1, k, k + 1, 1000])
    check_scaled(S, ws, t, scale_and_discretize(list(ws), t))
