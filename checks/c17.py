"""C17: outcome distributions stay normalised; marginals and distances obey their laws."""
import itertools
import math
import pathlib
import warnings

import numpy as np
from orquestra.quantum.distributions import (MeasurementOutcomeDistribution, compute_clipped_negative_log_likelihood,
                                             compute_jensen_shannon_divergence, compute_mmd, evaluate_distribution_distance,
                                             load_measurement_outcome_distribution, load_measurement_outcome_distributions,
                                             save_measurement_outcome_distribution, save_measurement_outcome_distributions)
from orquestra.quantum.distributions.mmd import compute_rbf_kernel

from symx import core
from symx.api import Caught, scenario

from . import lib

warnings.simplefilter("ignore")

BOUNDS = ("1-4 outcomes on 0-4 subsystems (outcome values up to 12), every key notation (tuples, digit strings, comma-separated), "
          "arbitrary non-negative weights up to 10^6 (reals and integers) with and without normalisation; marginals: every ordered list of "
          "distinct subsystems, arbitrary weights, chains of two marginals; MMD: supports of up to 3 (thorough 4) outcomes, arbitrary "
          "probabilities, one or two arbitrary kernel widths in [0.1, 20], registers up to 90 qubits with fixed widths; likelihoods: "
          "supports of up to 3 outcomes, arbitrary probabilities and clipping constants in [1e-9, 0.1]; files: 1-3 outcomes with "
          "arbitrary probabilities, lists of 0-3 distributions; marginals of 5-11 subsystems in eight orders; 9-64 outcomes with three arbitrary "
          "weights; distances over 5-17 outcomes with four arbitrary probabilities; files with 33 outcomes, 9-10 digits and lists of 23; numpy and boolean weights and outcomes")
OUTSIDE = ("infinite and NaN weights, overflow and rounding (weights from 1e-150 to 1e100 are covered by fixed ones); sums within 1e-9 of 1 count as normalised; mixed notations naming one outcome "
           "twice; non-negativity of the MMD for 3-4 outcomes is reduced to positive principal minors of the kernel (Sylvester's criterion); "
           "model probabilities exactly at the clipping constant; "
           "for the likelihood bound log x <= x - 1 is supplied as an axiom about the opaque logarithm; digit-level text of numbers")

M = MeasurementOutcomeDistribution


def total(S, xs):
    t = S.num(0)
    for x in xs:
        t = t + x
    return t


def as_string(k):
    return "".join(map(str, k))


def as_commas(k):
    return ",".join(map(str, k))


KEYSETS = [
    [(0,)], [(0,), (1,)], [(1,), (0,), (2,)], [()],
    [(0, 1), (1, 0)], [(1, 1), (0, 1), (1, 0), (0, 0)], [(0, 1, 1)], [(1, 0, 1), (0, 0, 0), (0, 2, 1)],
    [(10, 1), (1, 0), (12, 11)], [(11,), (1,)],
]


def notation(S, keys, name="notation"):
    forms = ["tuple"]
    if keys[0]:
        if all(d < 10 for k in keys for d in k):
            forms.append("string")
        if len(keys[0]) > 1:
            forms.append("commas")
            if all(d < 10 for k in keys for d in k) and len(keys) > 1:
                forms.append("mixed")
    f = S.choice(name, forms)
    if f == "tuple":
        return list(keys)
    if f == "string":
        return [as_string(k) for k in keys]
    if f == "commas":
        return [as_commas(k) for k in keys]
    return [(k, as_string(k), as_commas(k))[i % 3] for i, k in enumerate(keys)]


def weights(S, n, name="w", hi=10**6):
    kind = S.choice(name + "kind", ["real", "int"])
    return [S.real(f"{name}{i}", 0, hi) if kind == "real" else S.int(f"{name}{i}i", 0, hi) for i in range(n)]


def probabilities(S, n, name):
    """arbitrary probabilities summing to one"""
    ps = [S.real(f"{name}{i}", 0, 1) for i in range(n - 1)]
    last = 1 - total(S, ps)
    S.assume(last >= 0)
    return ps + [last]


def same_values(S, d, keys, vals, what):
    S.check(list(d) == list(keys), f"{what}: outcomes")
    if list(d) == list(keys):
        S.check(S.all(True, *[S.eq(a, b) for a, b in zip(d.values(), vals)]), f"{what}: values")


@scenario(weight=2)
def construction(S):
    keys = S.choice("keys", KEYSETS)
    ws = weights(S, len(keys))
    given = dict(zip(notation(S, keys), ws))
    names = list(given)
    norm = S.flag("normalize")
    W = total(S, ws)
    r = S.catch(M, given) if norm and S.flag("default") else S.catch(M, given, normalize=norm)
    same_values(S, given, names, ws, "dictionary given")
    if norm and S.truth(W <= 0):
        S.check(isinstance(r, Caught), "weights that are all zero cannot be normalised")
        return
    if isinstance(r, Caught):
        S.check(bool(norm) and bool(W < 1e-300), f"valid weights rejected: {r!r}")
        return
    d = r.distribution_dict
    S.check(set(d) == set(keys) and len(d) == len(keys), "outcomes are those given")
    S.check(r.get_number_of_subsystems() == len(keys[0]), "number of subsystems")
    if not norm:
        S.close_all([(d[k], w) for k, w in zip(keys, ws)], "weights kept without normalisation", tol=1e-9)
        return
    for k in keys:
        S.check(d[k] >= 0, "non-negative")
    S.close(total(S, d.values()), 1, "sums to one", tol=1e-8)
    for k, w in zip(keys, ws):
        S.check(S.all(d[k] * W - w <= 1e-8 * W, w - d[k] * W <= 1e-8 * W), "same proportions as the input", margin=abs(d[k] * W - w) > 1e-5 * W)


@scenario()
def negative_weights(S):
    keys = S.choice("keys", [k for k in KEYSETS if len(k) > 1 or k == [(0,)]])
    ws = [S.real(f"w{i}", -4, 4) for i in range(len(keys))]
    bad = S.choice("bad", list(range(len(keys))))
    S.assume(ws[bad] < 0)
    norm = S.flag("normalize")
    S.raises("negative value rejected", (RuntimeError, ValueError), M, dict(zip(notation(S, keys), ws)), norm)


@scenario()
def malformed(S):
    w = [S.real(f"w{i}", 0, 4) for i in range(3)]
    norm = S.flag("normalize")
    S.raises("empty input", (Exception,), M, {}, norm)
    for keys in [((0,), (0, 1)), ("0", "01"), ("0,1", "0,1,1"), ((0, 1), "1"), ((), (0,)), ((0, 1), (1,), (0, 0)), ("00", "01", "1"),
                 ((0, -1), (0, 1)), ("0,-1", "0,1"), ((-1,), (1,), (0,)), ((0.5,), (1,)), (("a",), (1,)), ("ab", "01")]:
        S.raises(f"keys {keys}", (Exception,), M, dict(zip(keys, w)), norm)


MARGINALS = [
    [(0,), (1,)],
    [(0, 1), (1, 0), (1, 1)],
    [(0, 0, 1), (0, 1, 0), (0, 1, 1), (1, 1, 1)],
    [(1, 0, 2), (0, 0, 2), (1, 2, 2)],
    [(11, 0), (1, 10), (1, 0), (11, 10)],
    [(1, 12, 0), (11, 2, 0), (1, 1, 20)],
    [(0, 1, 1, 0), (0, 0, 1, 0), (1, 1, 1, 1)],
]


@scenario(weight=2)
def marginals(S):
    keys = S.choice("keys", MARGINALS)
    n = len(keys[0])
    orders = [p for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]
    if n == 4 and not S.thorough:
        orders = orders[::3]
    qs = list(S.choice("qubits", orders))
    norm = S.choice("norm", ["probabilities", "raw"])
    ws = probabilities(S, len(keys), "p") if norm == "probabilities" else [S.real(f"w{i}", 0, 50) for i in range(len(keys))]
    src = M(dict(zip(keys, ws)), normalize=norm == "probabilities")
    arg = list(qs)
    r = src.subdistribution(arg)
    same_values(S, src.distribution_dict, keys, ws, "source distribution")
    S.check(arg == qs, "qubit list unchanged")
    check_marginal(S, r, keys, ws, qs)
    again = src.subdistribution(qs)
    S.check(set(again.distribution_dict) == set(r.distribution_dict), "same result when asked again")
    S.close_all([(again.distribution_dict[k], v) for k, v in r.distribution_dict.items() if k in again.distribution_dict], "same result when asked again")
    if len(qs) > 1:
        inner = S.choice("inner", [[0], [1], [1, 0]])
        check_marginal(S, r.subdistribution(inner), keys, ws, [qs[i] for i in inner])
        check_marginal(S, r, keys, ws, qs)


def check_marginal(S, r, keys, ws, qs):
    want = {}
    for k, w in zip(keys, ws):
        p = tuple(k[q] for q in qs)
        want[p] = want.get(p, S.num(0)) + w
    got = r.distribution_dict
    S.check(set(got) <= set(want), f"marginal on {qs}: outcomes")
    S.close_all([(got.get(k, 0), v) for k, v in want.items()], f"marginal on {qs}: sums of the probabilities projecting to each outcome")


@scenario()
def marginal_arguments(S):
    keys = S.choice("keys", [m for m in MARGINALS if len(m[0]) < 4])
    n = len(keys[0])
    ws = probabilities(S, len(keys), "p")
    src = M(dict(zip(keys, ws)))
    for qs in ([n], [0, n + 1], [0, 0], [0] * (n + 1)):
        S.raises(f"qubits {qs}", (ValueError,), src.subdistribution, qs)
    same_values(S, src.distribution_dict, keys, ws, "source after rejected calls")
    check_marginal(S, src.subdistribution(tuple(range(n))), keys, ws, list(range(n)))


# ---- distances
def exp(S, x):
    return core.op_exp(x) if S.symbolic else math.exp(x)


SUPPORTS = [
    ([(0,), (1,)], [(0,), (1,)]),
    ([(0,)], [(1,)]),
    ([(0, 0), (1, 1)], [(0, 1)]),
    ([(1, 0), (0, 1)], [(1, 1), (1, 0)]),
    ([(1,), (0,)], [(0,)]),
    ([(0, 0, 1), (0, 1, 0), (0, 0, 0)], [(0, 1, 0)]),
    ([(0, 0), (0, 1), (1, 0)], [(1, 0), (0, 0), (0, 1)]),
    ([(0,), (2,)], [(1,), (2,)]),
    ([(0, 3), (1, 2)], [(0, 3), (1, 0)]),
    ([(10,), (9,)], [(9,)]),
    ([()], [()]),
]
THOROUGH_SUPPORTS = [([(0, 0), (0, 1), (1, 0), (1, 1)], [(0, 0), (1, 1)]), ([(0, 1), (1, 0)], [(0, 0), (1, 1)])]


def pair(S, supports):
    a, b = S.choice("supports", supports)
    p, q = probabilities(S, len(a), "p"), probabilities(S, len(b), "q")
    return a, b, p, q, M(dict(zip(a, p))), M(dict(zip(b, q)))


@scenario(weight=2)
def mmd_laws(S):
    a, b, p, q, P, Q = pair(S, SUPPORTS + (THOROUGH_SUPPORTS if S.thorough else []))
    kind = S.choice("sigma", ["default", "one", "list"])
    g = [S.real("g0", 0.025, 5), S.real("g1", 0.025, 5)]
    sig = [1 / (2 * x) for x in g]  # the kernel uses gamma = 1 / (2 sigma)
    par = {"default": {}, "one": {"sigma": sig[0]}, "list": {"sigma": sig}}[kind]
    v = compute_mmd(P, Q, par)
    w = compute_mmd(Q, P, par)
    S.close(v, w, "MMD is symmetric")
    S.close(compute_mmd(P, P, par), 0, "MMD of a distribution with itself")
    S.close(compute_mmd(Q, Q, par), 0, "MMD of a distribution with itself")
    union = list(dict.fromkeys(a + b))
    if len(union) < 3:
        S.check(v >= -1e-12, "MMD is not negative", margin=v < -1e-3)
        if len(union) == 2:
            # non-negative for every difference d: 2 (1 - k) d^2 >= 0
            S.check(S.eq(evaluate_distribution_distance(P, Q, compute_mmd, distance_measure_parameters=par), v), "evaluated distance")
    same_values(S, P.distribution_dict, a, p, "first distribution")
    same_values(S, Q.distribution_dict, b, q, "second distribution")


@scenario()
def mmd_non_negative(S):
    """fixed width, three outcomes: the solver decides the sign of the form itself"""
    a, b, p, q, P, Q = pair(S, [s for s in SUPPORTS if 2 < len(set(s[0] + s[1]))] + (THOROUGH_SUPPORTS if S.thorough else []))
    sig = S.choice("sigma", [1.0, 0.5, 4.0, [0.25, 10.0]])
    v = compute_mmd(P, Q, {"sigma": sig})
    S.check(v >= -1e-12, "MMD is not negative", margin=v < -1e-3)


def det(S, K):
    n = len(K)
    if n == 1:
        return S.num(K[0][0])
    t = S.num(0)
    for j in range(n):
        t = t + (-1) ** j * S.num(K[0][j]) * det(S, [[r[c] for c in range(n) if c != j] for r in K[1:]])
    return t


@scenario()
def kernel(S):
    """the Gaussian kernel is symmetric with positive principal minors for every width"""
    import numpy as np

    pts = S.choice("points", [[0, 1], [0, 2], [3, 0], [0, 1, 2], [0, 1, 3], [2, 0, 1], [0, 3, 1]] + ([[0, 1, 2, 3], [0, 3, 5]] if S.thorough else []))
    g = S.real("g", 0.025, 3)
    x = np.asarray(pts)
    K = compute_rbf_kernel(x, x, 1 / (2 * g))
    S.check(tuple(K.shape) == (len(pts),) * 2, "square")
    rows = [[K[i, j] for j in range(len(pts))] for i in range(len(pts))]
    S.close_all([(rows[i][j], rows[j][i]) for i in range(len(pts)) for j in range(i)], "kernel is symmetric")
    S.close_all([(rows[i][j], exp(S, -g * (pts[i] - pts[j]) ** 2)) for i in range(len(pts)) for j in range(len(pts))], "Gaussian kernel")
    for m in range(1, len(pts) + 1):
        S.check(det(S, [r[:m] for r in rows[:m]]) > 0, f"principal minor {m} of the kernel")


@scenario()
def mmd_wide(S):
    """registers wider than a machine word"""
    n = S.choice("n", [5, 16, 31, 32, 33, 34, 40, 53, 54, 62, 63, 64, 65, 90])

    def at(*qs):
        return tuple(int(q in qs) for q in range(n))

    a, b = S.choice("supports", [([at(), at(0)], [at(n - 1), at(0, n - 1)]), ([at(0), at(1)], [at(0), at(0, 1)]), ([at(0, 1), at(n - 1)], [at()])])
    p, q = probabilities(S, len(a), "p"), probabilities(S, len(b), "q")
    P, Q = M(dict(zip(a, p))), M(dict(zip(b, q)))
    par = {"sigma": S.choice("sigma", [1.0, [0.5, 8.0]])}
    v = S.catch(compute_mmd, P, Q, par)
    if isinstance(v, Caught):
        S.fail(f"MMD fails: {v!r}")
        return
    S.check(v >= -1e-12, "MMD is not negative", margin=v < -1e-3)
    S.check(v <= 4 + 1e-9, "MMD is finite", margin=v > 4.1)
    S.close(v, compute_mmd(Q, P, par), "MMD is symmetric")
    S.close(compute_mmd(P, P, par), 0, "MMD of a distribution with itself")


GRID = [tuple(int(c) for c in f"{i:03b}") for i in range(8)]
LARGER = [(GRID[:5], GRID[4:6]), (GRID[:2], GRID[1:7]), (GRID[3:8], GRID[:5]), (GRID[:6], [GRID[7]]), (GRID, GRID[::-1]),
          ([(i,) for i in range(6)], [(i,) for i in (7, 2, 5)]), ([(0, 0), (0, 4), (3, 1), (2, 2), (1, 3), (4, 4)], [(0, 0), (4, 0)])]


@scenario()
def larger_supports(S):
    """five to eight outcomes"""
    a, b, p, q, P, Q = pair(S, LARGER)
    which = S.choice("distance", ["mmd", "mmd wide", "mmd list", "divergence"])
    if which == "divergence":
        par = {} if S.flag("default") else {"epsilon": 0.01}
        f, g = (lambda x, y: compute_jensen_shannon_divergence(x, y, par)), "symmetrised divergence is symmetric"
        if S.symbolic:  # every probability above the clipping constant: the branches are the smaller scenarios' subject
            for x in p + q:
                S.assume(S.any(x > 0.02))
    else:
        par = {"mmd": {}, "mmd wide": {"sigma": 12.5}, "mmd list": {"sigma": [0.5, 3.0, 20.0]}}[which]
        f, g = (lambda x, y: compute_mmd(x, y, par)), "MMD is symmetric"
    v = f(P, Q)
    S.close(v, f(Q, P), g)
    if which != "divergence":
        S.close(f(P, P), 0, "MMD of a distribution with itself")
        S.close(f(Q, Q), 0, "MMD of a distribution with itself")
        S.check(v >= -1e-9, "MMD is not negative", margin=v < -1e-3)


def log(x):
    return core.op_log(x) if isinstance(x, core.Sym) else math.log(x)


LIKELIHOODS = [s for s in SUPPORTS if len(set(s[0] + s[1])) < 4]


@scenario(weight=2)
def likelihood(S):
    a, b, p, q, P, Q = pair(S, LIKELIHOODS)
    if S.flag("default"):
        eps, par = 1e-9, {}
    else:
        eps = S.real("eps", 1e-9, 0.1)
        par = {"epsilon": eps}
    v = compute_clipped_negative_log_likelihood(P, Q, par)
    want, entropy, clipped = S.num(0), S.num(0), 0
    for k, x in zip(a, p):
        y = q[b.index(k)] if k in b else 0
        if k in b:
            S.assume(S.any(y < eps, y > eps))
        if S.truth(S.num(y) < eps):
            y, clipped = eps, clipped + 1
        if not S.truth(x > 0):
            continue
        ly, lx = log(y), log(x)
        want = want - x * ly
        entropy = entropy - x * lx
        if S.symbolic:
            core.assume(x * (ly - lx) <= y - x)  # log z <= z - 1 at z = y / x
    S.close(v, want, "clipped negative log-likelihood", tol=1e-9)
    S.check(v >= entropy - clipped * eps - 1e-9, "at least the target's entropy up to the clipping constant", margin=v < entropy - clipped * eps - 1e-4)
    same_values(S, P.distribution_dict, a, p, "target")
    same_values(S, Q.distribution_dict, b, q, "model")


@scenario()
def divergence(S):
    a, b, p, q, P, Q = pair(S, LIKELIHOODS)
    par = {} if S.flag("default") else {"epsilon": S.real("eps", 1e-9, 0.1)}
    v, w = compute_jensen_shannon_divergence(P, Q, par), compute_jensen_shannon_divergence(Q, P, par)
    S.close(v, w, "symmetrised divergence is symmetric")
    half = compute_clipped_negative_log_likelihood(P, Q, par) + compute_clipped_negative_log_likelihood(Q, P, par)
    S.close(v * 2, half, "mean of the two likelihoods")


@scenario()
def distance_arguments(S):
    """distances are only defined on the same number of subsystems"""
    P, Q = M({(0,): 0.5, (1,): 0.5}), M({(0, 1): 1.0})
    f = S.choice("f", [compute_mmd, compute_clipped_negative_log_likelihood, compute_jensen_shannon_divergence])
    S.raises("different numbers of subsystems", (Exception,), evaluate_distribution_distance, P, Q, f, distance_measure_parameters={})
    S.raises("not distributions", (TypeError,), evaluate_distribution_distance, {(0,): 1.0}, P, f, distance_measure_parameters={})
    a, b, p, q, P, Q = pair(S, SUPPORTS[:4])
    S.close(evaluate_distribution_distance(P, Q, f, distance_measure_parameters={}), f(P, Q, {}), "evaluated distance")


# ---- files
FILES = [[(0,)], [(0,), (1,)], [(1,), (0,), (2,)], [()], [(0, 1), (1, 0), (1, 1)], [(10, 1), (1, 0)], [(11,), (1,)], [(12,), (3,), (100,)],
         [(0, 2, 1), (11, 0, 1)], [(0,) * 12, (1,) * 12]]


def path(S, name):
    p = S.tmp(name)
    return S.choice(name, [p, pathlib.Path(p)])


@scenario()
def files(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    keys = S.choice("keys", FILES)
    ws = probabilities(S, len(keys), "p")
    d = M(dict(zip(notation(S, keys), ws)))
    p = path(S, "dist.json")
    save_measurement_outcome_distribution(d, p)
    same_values(S, d.distribution_dict, keys, ws, "saved distribution is unchanged")
    how = S.choice("how", ["path", "file"])
    if how == "path":
        r = S.catch(load_measurement_outcome_distribution, p)
    else:
        with open(p) as f:
            r = S.catch(load_measurement_outcome_distribution, f)
    loaded(S, r, keys, ws)


def loaded(S, r, keys, ws):
    if isinstance(r, Caught):
        S.fail(f"loading fails: {r!r}")
        return
    S.check(isinstance(r, M), "type")
    S.check(set(r.distribution_dict) == set(keys) and len(r.distribution_dict) == len(keys), "same keys")
    S.close_all([(r.distribution_dict.get(k, 0), w) for k, w in zip(keys, ws)], "same probabilities", tol=1e-12)


@scenario()
def normalised_then_saved(S):
    """arbitrary weights, normalised by the constructor, saved and loaded"""
    if S.symbolic:
        core.CTX.unsigned_text = True
    keys = S.choice("keys", [k for k in FILES if len(k) > 1][:4])
    ws = [S.real(f"w{i}", 0, 50) for i in range(len(keys))]
    W = total(S, ws)
    S.assume(W > 0.001)
    d = M(dict(zip(keys, ws)))
    p = S.tmp("dist.json")
    save_measurement_outcome_distribution(d, p)
    loaded(S, S.catch(load_measurement_outcome_distribution, p), keys, [d.distribution_dict[k] for k in keys])


@scenario()
def list_files(S):
    if S.symbolic:
        core.CTX.unsigned_text = True
    k = S.choice("count", [0, 1, 2, 3])
    sets = [S.choice(f"keys{i}", [FILES[1], FILES[5], FILES[7]]) for i in range(k)]
    ws = [probabilities(S, len(s), f"p{i}") for i, s in enumerate(sets)]
    ds = [M(dict(zip(s, w))) for s, w in zip(sets, ws)]
    p = path(S, "dists.json")
    save_measurement_outcome_distributions(ds, p)
    if S.flag("file"):
        with open(p) as f:
            r = S.catch(load_measurement_outcome_distributions, f)
    else:
        r = S.catch(load_measurement_outcome_distributions, p)
    if isinstance(r, Caught):
        S.fail(f"loading fails: {r!r}")
        return
    S.check(len(r) == k, "as many distributions")
    for x, s, w in zip(r, sets, ws):
        loaded(S, x, s, w)


# ---- many outcomes and subsystems
def grid(n, m):
    """m different outcomes of n two-valued subsystems, in no particular order"""
    step = 2**n // m | 1
    return [tuple((i * step % 2**n) >> q & 1 for q in range(n)) for i in range(m)]


@scenario()
def wide_marginals(S):
    """five and more subsystems, in any order of the list"""
    n = S.choice("n", [5, 6, 8, 11])
    qs = list(S.choice("qubits", [tuple(range(n))[::-1], (4, 0, 3, 1), (2, 4, 0, 1, 3), tuple(range(1, n)) + (0,), (n - 1, 0), (1, 4, n - 2 if n > 6 else 0, 2), (n - 1,),
                                  tuple(range(0, n, 2))[::-1] + tuple(range(1, n, 2))]))
    keys = grid(n, 5) if S.flag("bits") else [tuple((i * 7 + q * (q + i)) % 13 for q in range(n)) for i in range(5)]
    ws = probabilities(S, len(keys), "p") if S.flag("normalised") else [S.real(f"w{i}", 0.5, 50) for i in range(len(keys))]
    src = M(dict(zip(keys, ws)), normalize=False)
    r = S.catch(src.subdistribution, list(qs))
    if isinstance(r, Caught):
        S.fail(f"marginal fails: {r!r}")
        return
    same_values(S, src.distribution_dict, keys, ws, "source distribution")
    check_marginal(S, r, keys, ws, qs)
    if len(qs) > 2:
        check_marginal(S, r.subdistribution([len(qs) - 1, 0]), keys, ws, [qs[-1], qs[0]])


@scenario()
def many_outcomes(S):
    n = S.choice("outcomes", [9, 17, 33, 64])
    keys = grid(7, n)
    at = S.choice("at", [0, n // 2, n - 1])
    ws = [S.real(f"w{i}", 0.01, 1000) if i in (at, 1) else (i % 5) * 0.5 for i in range(n)]
    form = S.choice("form", ["tuple", "string", "commas"])
    names = [{"tuple": k, "string": as_string(k), "commas": as_commas(k)}[form] for k in keys]
    d = M(dict(zip(names, ws))).distribution_dict
    W = total(S, ws)
    S.check(set(d) == set(keys) and len(d) == n, "outcomes are those given")
    S.close(total(S, d.values()), 1, "sums to one", tol=1e-8)
    S.check(S.all(True, *[S.all(d[k] >= 0, d[k] * W - w <= 1e-8 * W, w - d[k] * W <= 1e-8 * W) for k, w in zip(keys, ws)]), "same proportions as the input")
    short, bad = list(names), S.real("bad", -10, -1e-9)
    short[at] = {"tuple": keys[at][:-1], "string": as_string(keys[at][:-1]), "commas": as_commas(keys[at][:-1])}[form]
    S.raises("an outcome of a different length anywhere", (Exception,), M, dict(zip(short, ws)), S.flag("normalize"))
    S.raises("a negative value anywhere", (RuntimeError, ValueError), M, {k: bad if i == at else w for i, (k, w) in enumerate(zip(names, ws))}, True)


@scenario()
def many_outcomes_distances(S):
    """log-likelihood, divergence and MMD of distributions over many outcomes, some impossible in one of them"""
    n = S.choice("outcomes", [5, 6, 9, 17])
    keys = grid(5, n)
    p = probabilities(S, 4, "p")
    P = M(dict(zip(keys[:4], p)))
    q = [[0.0, 1e-12, 0.5, 2.0, 1.0, 0.0, 1e-3][i % 7] for i in range(n - 1)]
    q = [x / sum(q) for x in q]
    Q = M(dict(zip(keys[1:], q)))
    eps = S.choice("eps", [None, 1e-9, 1e-4, 0.05])
    par = {} if eps is None else {"epsilon": eps}
    e = eps or 1e-9
    v = compute_clipped_negative_log_likelihood(P, Q, par)
    S.close(v, total(S, [-x * math.log(max(e, y)) for x, y in zip(p, [0] + q)]), "clipped negative log-likelihood", tol=1e-6)
    S.check(list(P.distribution_dict) == keys[:4] and list(Q.distribution_dict) == keys[1:], "distributions are unchanged")
    sig = S.choice("sigma", [1.0, 0.005, [0.01, 2.0], [0.002, 0.004, 100.0]])
    v = compute_mmd(P, Q, {"sigma": sig})
    want = S.num(0)
    diff = {k: S.num(0) for k in keys}
    for k, x in zip(keys, p):
        diff[k] = diff[k] + x
    for k, x in zip(keys[1:], q):
        diff[k] = diff[k] - x
    code = {k: int("".join(map(str, k)), 2) for k in keys}
    sigs = sig if isinstance(sig, list) else [sig]
    for a, b in itertools.product(keys, repeat=2):
        g = sum(math.exp(-(code[a] - code[b]) ** 2 / (2 * s)) for s in sigs) / len(sigs)
        if g > 1e-13:
            want = want + diff[a] * diff[b] * g
    S.close(v, want, "MMD with Gaussian kernels", tol=1e-7)
    S.close(compute_mmd(Q, P, {"sigma": sig}), v, "MMD is symmetric")
    S.close(compute_mmd(P, P, {"sigma": sig}), 0, "MMD of a distribution with itself")


@scenario()
def wide_files(S):
    """keys of many digits of every size, many outcomes, long lists"""
    if S.symbolic:
        core.CTX.unsigned_text = True
    what = S.choice("what", ["digits", "many", "list", "wide digits"])
    p = S.tmp("dist.json")
    if what == "list":
        k = S.choice("count", [9, 11, 23])
        sets = [[(i % 3, 1), (i, 0)] if i != 1 else [(12, 0)] for i in range(k)]
        ws = [probabilities(S, len(s), f"p{i}") if i in (2, 10) else [0.25 + i / 100, 0.75 - i / 100][:len(s)] for i, s in enumerate(sets)]
        ds = [M(dict(zip(s, w)), normalize=False) for s, w in zip(sets, ws)]
        save_measurement_outcome_distributions(ds, p)
        r = load_measurement_outcome_distributions(p)
        S.check(len(r) == k, "as many distributions")
        for x, s, w in zip(r, sets, ws):
            S.check(list(x.distribution_dict) == s, "same keys at the same place")
            if len(s) == 2:
                loaded(S, x, s, w)
        return
    keys = {"digits": [(0, 1, 2, 3, 4, 5, 6, 7, 8), (9,) * 9, (8, 9, 1, 0, 0, 0, 0, 9, 9), (0,) * 8 + (9,), (0,) * 8 + (8,)],
            "wide digits": [(10, 9, 8, 123, 0, 5, 77, 1, 1, 9), (0,) * 10, (1,) * 9 + (8,), (1,) * 9 + (10,)],
            "many": grid(6, 33)}[what]
    if what == "many":
        ws = [S.real("w", 0.01, 0.5)] + [[0.0, 0.5, 0.01, 0.125][i % 4] for i in range(32)]
        d = M(dict(zip(keys, ws)))
        ws = [d.distribution_dict[k] for k in keys]
    else:
        ws = probabilities(S, len(keys), "p")
        d = M(dict(zip(keys, ws)))
    save_measurement_outcome_distribution(d, p)
    loaded(S, S.catch(load_measurement_outcome_distribution, p), keys, ws)


@scenario()
def scaled_weights(S):
    """very large and very small weights"""
    keys = S.choice("keys", [[(0,), (1,)], [(1, 0), (0, 1), (1, 1)], [(2,), (0,), (1,), (10,)]])
    scale = S.choice("scale", [1e18, 1e100, 1e-12, 1e-30, 1e-150, 10**20])
    base = [3, 1, 2.5, 0.25][:len(keys)]
    if S.flag("arbitrary"):
        base[1] = S.real("w", 0.125, 64)
    r = M({k: b * scale for k, b in zip(keys, base)}).distribution_dict
    B = total(S, base)
    S.close(total(S, r.values()), 1, "sums to one", tol=1e-8)
    for k, b in zip(keys, base):
        S.check(S.all(r[k] * B - b <= 1e-8 * B, b - r[k] * B <= 1e-8 * B), "same proportions as the input", margin=abs(r[k] * B - b) > 1e-5 * B)


KINDS_OF_NUMBERS = {"float64": np.float64, "float32": np.float32, "int64": np.int64, "int": int, "bool": bool}
KINDS_OF_OUTCOMES = {"int": int, "int64": np.int64, "uint8": np.uint8, "bool": bool}


@scenario()
def kinds_of_numbers(S):
    """outcomes and weights that are not plain ints and floats"""
    if S.symbolic:
        core.CTX.unsigned_text = True
    kind = S.choice("number", list(KINDS_OF_NUMBERS))
    number = KINDS_OF_NUMBERS[kind]
    outcome = KINDS_OF_OUTCOMES[S.choice("outcome", list(KINDS_OF_OUTCOMES))]
    keys = S.choice("keys", [[(0,), (1,)], [(0, 1), (1, 1), (1, 0)], [(2, 11), (0, 1)], [(1, 0, 1)]])
    if outcome is bool and max(map(max, keys)) > 1:
        return
    raw = {"float64": [0.25, 1.5, 0.25], "float32": [0.25, 0.7, 0.05], "int64": [3, 1, 4], "int": [3, 1, 4],
           "bool": [True, False, True]}[kind]
    ws = [number(x) for x in raw[:len(keys)]]
    if S.flag("arbitrary"):
        ws[0] = S.real("w", 0.125, 4)
    d = M({tuple(map(outcome, k)): w for k, w in zip(keys, ws)})
    W = total(S, ws)
    want = [S.num(w) / S.num(W) for w in ws]
    same = lambda r, what: (S.check(list(r) == keys, f"{what}: outcomes", info=list(r)),
                            S.close_all([(r.get(k, -1), w) for k, w in zip(keys, want)], f"{what}: probabilities", tol=1e-6))
    same(d.distribution_dict, "construction")
    p = S.tmp("dist.json")
    many = S.flag("list")
    if many:
        save_measurement_outcome_distributions([d, d], p)
        r = load_measurement_outcome_distributions(p)
        S.check(len(r) == 2, "as many distributions")
    else:
        save_measurement_outcome_distribution(d, p)
        r = [load_measurement_outcome_distribution(p)]
    for x in r:
        S.check(isinstance(x, M), "type")
        same(x.distribution_dict, "loaded")
        S.check(all(type(o) is int for k in x.distribution_dict for o in k), "plain outcomes come back")
    same(d.distribution_dict, "afterwards")
