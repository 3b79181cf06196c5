"""C11: operators and result artefacts survive dict, file and text round trips."""
import io
import json
import os
import pathlib

import numpy as np
from orquestra.quantum import utils
from orquestra.quantum.circuits import layouts
from orquestra.quantum.measurements import (ExpectationValues, Measurements, Parities, load_expectation_values, load_parities,
                                            save_expectation_values, save_parities)
from orquestra.quantum.operators import (PauliSum, PauliTerm, convert_dict_to_op, convert_op_to_dict, load_operator,
                                         load_operator_set, save_operator, save_operator_set)

from symx import core
from symx.api import scenario

from . import lib

BOUNDS = ("terms and sums of 0-3 terms over a family of Pauli strings (constants, repeated strings, qubit indices up to 2**31) "
          "whose coefficients are arbitrary reals/integers/complex numbers of magnitude below 1e18 in each notation class (plain, "
          "negative and positive exponent, purely imaginary, zero imaginary part) plus the literals -0.0, 0, 1e-9, -1e-5j, (-0-1j), 5e14, 1e22, 1e300; value arrays of "
          "0-3 arbitrary real/complex numbers with 0-2 correlation/covariance frames each possibly absent; 0-3 shots of 0-3 bits; "
          "layers with arbitrary integer qubits; many_terms/large_artefacts: sums of 6-40 terms, up to 2000 shots, 12x12 matrices, 60-entry lists; every kind of path and open files; numpy qubit indices and coefficients (fixed ones)")
OUTSIDE = ("more terms; digit-level correctness of CPython's and rapidjson's number literals: the text of a number is an opaque "
           "token that parses back to the same number; lists holding objects JSON cannot represent")

SHAPES = [
    [],
    [{}],
    [{0: "X"}],
    [{12: "Z", 3: "Y"}],
    [{0: "Z"}, {}],
    [{}, {10: "X", 2: "Z"}],
    [{0: "Z"}, {0: "Z"}],
    [{1: "Y", 0: "X"}, {0: "X", 1: "Y"}],
    [{}, {}],
    [{0: "X"}, {0: "Y"}],
    [{2**31 + 5: "Y", 70000: "X", 10234: "X", 7: "Z", 0: "Y"}, {1: "Z"}],
]
BIG = [[{0: "X"}, {}, {0: "X"}], [{2: "Z"}, {1: "Z"}, {2: "Z", 1: "Z"}], [{}, {101: "Y"}, {}]]
LITERALS = [-0.0, 0, 1e-9, -1e-5j, complex(-0.0, -1), complex(2.5, 0.0), complex(0.0, -0.0), 5e14, -7, complex(-3e-7, 4e14), 1e-12 + 1e-12j, 1e22, -3e17j, complex(1e300, -2e16)]
KINDS = ["real", "int", "complex", "imaginary", "zero imaginary", "literal"]


def coefficient(S, i, kinds=KINDS, top=1e18):
    k = S.choice(f"kind{i}", kinds)
    r = lambda n: S.real(f"{n}{i}", -top, top)
    if k == "real":
        return r("c")
    if k == "int":
        return S.int(f"n{i}", -10**15 + 1, 10**15 - 1)
    if k == "complex":
        return S._mkc(r("re"), r("im"))
    if k == "imaginary":
        return S._mkc(0.0, r("im"))
    if k == "zero imaginary":
        return S._mkc(r("re"), 0.0)
    return S.choice(f"lit{i}", LITERALS)


def operator(S, shapes=SHAPES):
    shape = S.choice("shape", shapes)
    n = len(shape)
    kinds = [KINDS, KINDS, ["real", "complex", "imaginary"], ["real", "complex"]][n]
    terms = [PauliTerm(dict(s), coefficient(S, i, kinds)) for i, s in enumerate(shape)]
    if n == 1 and S.flag("term"):
        return terms[0], shape
    return PauliSum(terms), shape


def table(S, op):
    """coefficients by Pauli string (the strings are linearly independent)"""
    t = {}
    for term in op.terms:
        k = tuple(sorted((int(q), term[q]) for q in term.qubits))
        t[k] = t[k] + S.num(term.coefficient) if k in t else S.num(term.coefficient)
    return t


def reals(S, c):
    c = S.num(c)
    return (c.real, c.imag)


def same(S, a, b, label, slack):
    A, B = table(S, a), table(S, b)
    for k in sorted(set(A) | set(B)):
        (x, y), (u, v) = reals(S, A.get(k, 0)), reals(S, B.get(k, 0))
        if slack == 0:
            S.close_all([(x, u), (y, v)], f"{label}: coefficient of {k}")
        else:
            S.check(S.all(abs(x - u) <= slack, abs(y - v) <= slack), f"{label}: coefficient of {k}")


def same_exactly(S, a, b, label):
    """operator for operator, coefficient part for coefficient part"""
    S.check(len(a.terms) == len(b.terms), f"{label}: number of terms")
    B = {tuple(sorted((int(q), t[q]) for q in t.qubits)): t for t in b.terms}
    for t in a.terms:
        k = tuple(sorted((int(q), t[q]) for q in t.qubits))
        S.check(k in B, f"{label}: Pauli string kept")
        if k in B:
            (x, y), (u, v) = reals(S, t.coefficient), reals(S, B[k].coefficient)
            S.check(S.all(S.eq(x, u), S.eq(y, v)), f"{label}: coefficient parts kept")


def unsigned(S):
    """JSON numbers: the sign of a literal needs no case split"""
    if S.symbolic:
        core.CTX.unsigned_text = True


def simplified(S, op, shape):
    """Assume that no coefficient is within the zero tolerance."""
    if len({tuple(sorted(s.items())) for s in shape}) < len(shape):
        return False
    for t in op.terms:
        x, y = reals(S, t.coefficient)
        S.assume(S.any(abs(x) > 1e-7, abs(y) > 1e-7))
    return True


def symbolic_text(S):
    if S.symbolic:
        core.CTX.text_classes = True


@scenario(weight=2)
def dictionary_form(S):
    op, shape = operator(S, SHAPES + BIG if S.thorough else SHAPES)
    exact = S.flag("simplified")
    if exact and (not shape or not simplified(S, op, shape)):
        return
    d = convert_op_to_dict(op)
    S.check(isinstance(d, dict) and len(d["terms"]) == len(op.terms), "one entry per term")
    for t, e in zip(op.terms, d["terms"]):
        S.check(sorted((p["qubit"], p["op"]) for p in e["pauli_ops"]) == sorted((q, t[q]) for q in t.qubits), "operators of the entry")
    back = convert_dict_to_op(d)
    S.check(isinstance(back, PauliSum), "a sum comes back")
    if exact:
        same_exactly(S, op, back, "dict")
    else:
        same(S, op, back, "dict", 1.1e-8 * max(1, len(shape)))


def sources(S, path):
    """the ways a saved file can be handed to its loader"""
    kind = S.choice("source", ["str", "Path", "bytes", "file", "stringio"])
    if kind == "str":
        return path
    if kind == "Path":
        return pathlib.Path(path)
    if kind == "bytes":
        return os.fsencode(path)
    if kind == "file":
        return open(path)
    with open(path) as f:
        return io.StringIO(f.read())


def finish(src):
    if hasattr(src, "close"):
        src.close()


def target(S, path):
    return pathlib.Path(path) if S.flag("savepath") else path


def through(S, load, path):
    src = sources(S, path)
    try:
        return load(src)
    finally:
        finish(src)


@scenario(weight=2)
def operator_files(S):
    unsigned(S)
    op, shape = operator(S, [[], [{}], [{12: "Z", 3: "Y"}], [{}, {10: "X", 2: "Z"}], [{0: "Z"}, {0: "Z"}]])
    exact = bool(shape) and simplified(S, op, shape)
    p = S.tmp("op.json")
    save_operator(op, target(S, p))
    with open(p) as f:
        json.loads(f.read())  # real JSON text
    back = through(S, load_operator, p)
    if exact:
        same_exactly(S, op, back, "file")
    else:
        same(S, op, back, "file", 1.1e-8 * max(1, len(shape)))


@scenario()
def operator_lists(S):
    unsigned(S)
    ops = []
    for i in range(S.choice("n", [0, 1, 2, 3] if S.thorough else [0, 1, 2])):
        shape = S.choice(f"s{i}", [[{3: "X", 11: "Z"}], [{}], [{1: "Y"}, {}]])
        cs = [coefficient(S, f"{i}_{j}", ["real", "complex"]) for j in range(len(shape))]
        op = PauliSum([PauliTerm(dict(s), c) for s, c in zip(shape, cs)])
        simplified(S, op, shape)
        ops.append(op)
    p = S.tmp("ops.json")
    save_operator_set(ops, p)
    back = through(S, load_operator_set, p)
    S.check(isinstance(back, list) and len(back) == len(ops), "as many operators, in order")
    for a, b in zip(ops, back):
        same_exactly(S, a, b, "operator list")


@scenario(weight=3)
def printed_term(S):
    symbolic_text(S)
    ops = S.choice("ops", [{}, {0: "X"}, {12: "Z", 3: "Y"}, {2**31 + 5: "Y", 70000: "X", 10234: "X", 7: "Z", 0: "Y"}])
    t = PauliTerm(dict(ops), coefficient(S, 0))
    how = S.choice("how", ["str", "repr", "format"])
    text = {"str": str, "repr": repr, "format": lambda x: f"{x}"}[how](t)
    same(S, t, PauliTerm(text), "printed term", 0)
    same(S, t, PauliSum(text), "printed term read as a sum", 0)


@scenario(weight=3)
def printed_sum(S):
    symbolic_text(S)
    shape = S.choice("shape", SHAPES + BIG)
    large = (len(shape[-1]) if shape else 0) % max(len(shape), 1)  # the one that may reach 1e18 (all in thorough)
    top = lambda i: 1e18 if i == large or S.thorough else 1e15
    kinds = [KINDS, KINDS, KINDS if S.thorough else ["real", "complex", "imaginary", "literal"], ["real", "complex"]][len(shape)]
    if len(shape) == 2 and not S.thorough:
        pair = S.choice("pair", [("real", "complex"), ("complex", "real"), ("literal", "imaginary"), ("imaginary", "literal"), ("complex", "complex")])
        cs = [coefficient(S, i, [k], top(i)) for i, k in enumerate(pair)]
    elif len(shape) == 3 and not S.thorough:
        triple = S.choice("triple", [("real", "imaginary", "complex"), ("complex", "real", "real")])
        cs = [coefficient(S, i, [k], top(i)) for i, k in enumerate(triple)]
    else:
        cs = [coefficient(S, i, kinds, top(i)) for i in range(len(shape))]
    op = PauliSum([PauliTerm(dict(s), c) for s, c in zip(shape, cs)])
    same(S, op, PauliSum(str(op)), "printed sum", 0)


# ---- numeric artefacts
def values(S, name, shape, kind):
    """array of arbitrary numbers"""
    n = int(np.prod(shape)) if shape else 1
    mk = {"real": lambda i: S.real(f"{name}{i}", -100, 100),
          "complex": lambda i: S._mkc(S.real(f"{name}{i}r", -100, 100), S.real(f"{name}{i}i", -100, 100)),
          "int": lambda i: S.int(f"{name}{i}", -1000, 1000)}[kind]
    if n == 0:
        return np.zeros(shape, dtype=complex if kind == "complex" else float)
    return S.array([mk(i) for i in range(n)]).reshape(shape)


def array_equal(S, a, b, label):
    S.check(b is not None and tuple(a.shape) == tuple(b.shape), f"{label}: shape")
    if b is None or tuple(a.shape) != tuple(b.shape):
        return
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        (p, q), (u, v) = reals(S, x), reals(S, y)
        S.check(S.all(S.eq(p, u), S.eq(q, v)), f"{label}: entries")


def frames_equal(S, a, b, label):
    if a is None or b is None:
        S.check(a is b, f"{label}: absent exactly when it was absent")
        return
    S.check(len(a) == len(b), f"{label}: number of frames")
    for x, y in zip(a, b):
        array_equal(S, x, y, label)


@scenario()
def arrays(S):
    shape = S.choice("shape", [(0,), (1,), (3,), (2, 2), (1, 2, 2), (0, 0), (2, 0)])
    a = values(S, "a", shape, S.choice("kind", ["real", "complex", "int"]))
    d = utils.convert_array_to_dict(a)
    text = json.dumps(d) if not S.symbolic else None
    back = utils.convert_dict_to_array(json.loads(text) if text else d)
    array_equal(S, S.arr(a), S.arr(back), "array through a dictionary")


def frames(S, name, n, kind, options):
    spec = S.choice(name, options)
    if spec is None:
        return None
    return [values(S, f"{name}{j}_", (k, k), kind) for j, k in enumerate(spec)]


@scenario(weight=2)
def expectation_values(S):
    unsigned(S)
    n = S.choice("n", [0, 1, 2, 3] if S.thorough else [0, 1, 2])
    kind = S.choice("kind", ["real", "complex", "int"])
    v = values(S, "v", (n,), kind)
    ck = S.choice("ckind", ["real", "complex"])
    opts = [None, [], [0], [1], [n], [1, 2]]
    if not S.thorough:
        opts = {0: [None, [], [0]], 1: [None, [1], [1, 1]], 2: [None, [2], [1, 2]]}[n]
    c = frames(S, "corr", n, ck, opts)
    e = frames(S, "cov", n, S.choice("ekind", ["real", "complex"]), opts)
    ev = ExpectationValues(v, c, e)
    p = S.tmp("ev.json")
    save_expectation_values(ev, p)
    back = through(S, load_expectation_values, p) if n == 1 else load_expectation_values(p)
    array_equal(S, v, back.values, "values")
    frames_equal(S, c, back.correlations, "correlations")
    frames_equal(S, e, back.estimator_covariances, "covariances")


@scenario()
def parities(S):
    unsigned(S)
    n = S.choice("n", [0, 1, 2, 3] if S.thorough else [0, 1, 2])
    v = values(S, "v", (n, 2), "int")
    spec = S.choice("corr", [None, [], [n], [1, 2]])
    c = None if spec is None else [values(S, f"c{j}_", (k, k, 2), "int") for j, k in enumerate(spec)]
    p = S.tmp("parities.json")
    save_parities(Parities(v, c), target(S, p))
    back = through(S, load_parities, p)
    array_equal(S, v, back.values, "tallies")
    frames_equal(S, c, back.correlations, "pair tallies")


@scenario()
def value_estimates(S):
    if S.symbolic:
        core.CTX.c_tokens = True
    v = S.choice("v", ["real", "int", 0.0, -0.0, 1e-30, np.float64(2.5)])
    v = S.real("value", -1e15, 1e15) if v == "real" else S.int("intvalue", -1000, 1000) if v == "int" else v
    pr = S.choice("p", ["absent", None, "real", 0, 0.0, np.float64(0.5), "zero"])
    pr = S.real("precision", 0, 100) if pr == "real" else 0.0 if pr == "zero" else pr
    e = utils.ValueEstimate(v) if isinstance(pr, str) else utils.ValueEstimate(v, pr)
    p = S.tmp("value.json")
    utils.save_value_estimate(e, p)
    back = through(S, utils.load_value_estimate, p)
    S.check(back == e and e == back and not (back != e), "equal estimate")
    want = None if isinstance(pr, str) else pr
    S.check((back.precision is None) == (want is None), "precision present exactly when it was")
    S.close(float(back), float(e), "value")
    if want is not None:
        S.close(back.precision, want, "precision")


@scenario()
def plain_lists(S):
    unsigned(S)
    r = S.real("r", -1e15, 1e15)
    i = S.int("i", -10**15, 10**15)
    xs = S.choice("list", [[], [r], [r, i, -r], [[r, [i]], [], "a + b", None, True, {"k": r}], [[1.0, 2.0], [3.0]], ["é", "\n\"x"]])
    p = S.tmp("list.json")
    utils.save_list(xs, target(S, p))
    back = through(S, utils.load_list, p)
    S.check(tree_equal(S, xs, back), "equal list")


def tree_equal(S, a, b):
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return S.all(*[tree_equal(S, x, y) for x, y in zip(a, b)]) if a else True
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(bool(tree_equal(S, a[k], b[k])) for k in a)
    if a is None or isinstance(a, (str, bool)):
        return type(a) is type(b) and a == b
    if b is None or isinstance(b, (str, bool, list, dict, tuple)):
        return False
    return S.eq(a, b)


@scenario()
def measurement_estimates(S):
    unsigned(S)
    K = S.choice("K", ["real", 0.0, 0, 1.5e9])
    K = S.real("nmeas", 0, 1e15) if K == "real" else K
    n = S.int("nterms", 0, 10**6)
    frame = S.choice("frames", [None, (0,), (1,), (3,)])
    fm = None if frame is None else values(S, "f", frame, S.choice("fk", ["real", "int"]))
    p = S.tmp("nmeas.json")
    if fm is None and S.flag("default"):
        utils.save_nmeas_estimate(K, n, p)
    else:
        utils.save_nmeas_estimate(nmeas=K, nterms=n, filename=p, frame_meas=fm)
    K2, n2, f2 = through(S, utils.load_nmeas_estimate, p)
    S.check(S.all(S.eq(K2, K), S.eq(n2, n)), "estimate and number of terms")
    if fm is None:
        S.check(f2 is None, "no frames were saved")
    else:
        array_equal(S, fm, f2, "frames")


@scenario()
def layers_and_connectivity(S):
    unsigned(S)
    q = [S.int(f"q{i}", 0, 10**6) for i in range(4)]
    what = S.choice("what", ["layers", "connectivity", "ordering"])
    p = S.tmp("layout.json")
    if what == "layers":
        x = S.choice("x", [[], [[]], [[(q[0], q[1])], []], [[(q[0], q[1]), (q[2], q[3])], [(q[1], q[2], q[3])]], [[(q[0],)]]])
        layouts.save_circuit_layers(layouts.CircuitLayers(x), p)
        back = through(S, layouts.load_circuit_layers, p)
        S.check(isinstance(back, layouts.CircuitLayers), "type")
        back = back.layers
    elif what == "connectivity":
        x = S.choice("x", [[], [(q[0], q[1])], [(q[0], q[1]), (q[3], q[2]), (q[0], q[2], q[3])]])
        layouts.save_circuit_connectivity(layouts.CircuitConnectivity(x), p)
        back = through(S, layouts.load_circuit_connectivity, p)
        S.check(isinstance(back, layouts.CircuitConnectivity), "type")
        back = back.connectivity
    else:
        x = S.choice("x", [[], [q[0]], [q[1], q[0], q[2]]])
        layouts.save_circuit_ordering(x, p)
        back = through(S, layouts.load_circuit_ordering, p)
    S.check(tree_equal(S, x, back), f"equal {what}")


@scenario()
def built_layouts(S):
    """what the layout builders produce"""
    if S.flag("sycamore"):
        args = (S.choice("x", [1, 2, 3, 4]), S.choice("y", [2, 3, 4, 5]), "sycamore")
    else:
        args = (S.choice("x", [1, 2, 3, 5, 12]),)
    con, lay = layouts.build_circuit_layers_and_connectivity(*args)
    p = S.tmp("layout.json")
    layouts.save_circuit_layers(lay, p)
    S.check(bool(tree_equal(S, lay.layers, layouts.load_circuit_layers(p).layers)), "equal layers")
    layouts.save_circuit_connectivity(con, p)
    S.check(bool(tree_equal(S, con.connectivity, layouts.load_circuit_connectivity(p).connectivity)), "equal connectivity")


@scenario(weight=2)
def measurement_sets(S):
    w = S.choice("w", [0, 1, 2, 3])
    m = S.choice("m", [0, 1, 2, 3] if w < 3 or S.thorough else [0, 1, 2])
    bits = [tuple(S.choice(f"b{i}_{j}", [0, 1]) for j in range(w)) for i in range(m)]
    given = [tuple(np.int8(x) for x in b) for b in bits] if S.flag("int8") else list(bits)
    p = S.tmp("measurements.json")
    Measurements(given).save(target(S, p))
    back = through(S, Measurements.load_from_file, p) if m == 1 else Measurements.load_from_file(p)
    S.check(back.bitstrings == bits, "equal measurements, in order")
    S.check(all(type(b) is tuple and all(type(x) is int for x in b) for b in back.bitstrings), "tuples of integers")
    S.check(back.get_counts() == Measurements(list(bits)).get_counts(), "equal counts")


MIX = [2.5, -3e-5, complex(0, 1), complex(-2, 1e-7), 7, -1, 1e20, complex(3e-9, -4), -1e-5j, 0.1, complex(1e18, 2), 1 / 3, complex(-1 / 3, 2 / 7), 123456789.123456]


def many(S, n, repeats):
    """n terms over wide registers; three arbitrary coefficients, the others of every kind of literal"""
    x, y, z = S.real("x", 0.5, 1), S.real("y", 4, 5), S.real("z", -20, -10)
    coefs = [x, S._mkc(y, z), *MIX]
    ts, used = [], []
    for i in range(n):
        ops = {(k * (i + 3) + i * i) % 97 + (1000 if i % 5 == 4 else 0): "XYZ"[(i + k) % 3] for k in range(i % 6)}
        if repeats and i % 4 == 3:
            ops = dict(reversed(list(used[i - 2].items())))
        used.append(ops)
        ts.append(PauliTerm(ops, coefs[i % len(coefs)]))
    return PauliSum(ts)


@scenario()
def many_terms(S):
    """sums of 6-40 terms through dictionaries, JSON text, files, lists of files and print"""
    n = S.choice("n", [6, 11, 16, 40])
    op = many(S, n, S.flag("repeats"))
    how = S.choice("how", ["dict", "file", "list", "print"])
    if how == "print":
        back = PauliSum(str(op))
    elif how == "dict":
        back = convert_dict_to_op(convert_op_to_dict(op))
    elif how == "file":
        p = S.tmp("op.json")
        save_operator(op, p)
        back = load_operator(p)
    else:
        p = S.tmp("ops.json")
        other = PauliSum([PauliTerm("X0", 2.0)])
        ops = [other, op, op, other, op.terms[2], *([other] * 9), op]
        save_operator_set(ops, p)
        got = load_operator_set(p)
        S.check(len(got) == len(ops), "one operator per operator")
        for k in (0, 3, 7, 13):
            same(S, other, got[k], "operator list", 1e-8)
        same(S, op.terms[2], got[4], "operator list", 1e-8)
        same(S, op, got[1], "operator list", 1.1e-8 * n)
        same(S, op, got[2], "operator list", 1.1e-8 * n)
        back = got[14]
    same(S, op, back, how, 0 if how == "print" else 1.1e-8 * n)


@scenario()
def large_artefacts(S):
    """measurement sets, statistics, tallies, layers and lists of realistic size"""
    unsigned(S)
    what = S.choice("what", ["shots", "values", "tallies", "layers", "list", "estimate"])
    p = S.tmp("artefact.json")
    x = [S.real(f"x{i}", -1, 1) for i in range(3)]
    if what == "shots":
        w, m = S.choice("size", [(5, 40), (20, 64), (70, 300), (3, 2000)])
        bits = [tuple((i * i * (j + 2) + (i * j) // 3 + i) % 2 for j in range(w)) for i in range(m)]
        Measurements(list(bits)).save(p)
        back = through(S, Measurements.load_from_file, p)
        S.check(back.bitstrings == bits, "equal measurements, in order")
    elif what == "values":
        k = S.choice("k", [5, 12])
        kind = S.choice("kind", ["real", "complex"])
        num = lambda i: (x[i % 3] * (1 + i) + i) if kind == "real" else S._mkc(x[i % 3] + i, (-1) ** i * x[(i + 1) % 3])
        v = S.array([num(i) for i in range(k)])
        frames_ = [S.array([num(i + j) for i in range(q * q)]).reshape(q, q) for j, q in enumerate([k, 2, 3, 1, k])]
        ev = ExpectationValues(v, frames_, frames_[::-1])
        save_expectation_values(ev, p)
        back = through(S, load_expectation_values, p)
        array_equal(S, v, back.values, "values")
        frames_equal(S, frames_, back.correlations, "correlations")
        frames_equal(S, frames_[::-1], back.estimator_covariances, "covariances")
    elif what == "tallies":
        k = S.choice("k", [5, 12])
        n = S.int("n", 0, 10**9)
        v = S.array([n + i for i in range(2 * k)]).reshape(k, 2)
        c = [S.array([n * 2 + 7 * i for i in range(2 * k * k)]).reshape(k, k, 2)] * S.choice("frames", [1, 3])
        save_parities(Parities(v, c), p)
        back = through(S, load_parities, p)
        array_equal(S, v, back.values, "tallies")
        frames_equal(S, c, back.correlations, "pair tallies")
    elif what == "layers":
        n = S.int("q", 0, 10**6)
        lay = [[(n + i, n + i + 1 + j) if (i + j) % 3 else (n + i + 9, n + j, 2 * n) for i in range(j % 7)] for j in range(12)]
        layouts.save_circuit_layers(layouts.CircuitLayers(lay), p)
        S.check(tree_equal(S, lay, through(S, layouts.load_circuit_layers, p).layers), "equal layers")
        con = [t for l in lay for t in l]
        layouts.save_circuit_connectivity(layouts.CircuitConnectivity(con), p)
        S.check(tree_equal(S, con, layouts.load_circuit_connectivity(p).connectivity), "equal connectivity")
        layouts.save_circuit_ordering([n - i for i in range(30)], p)
        S.check(tree_equal(S, [n - i for i in range(30)], layouts.load_circuit_ordering(p)), "equal ordering")
    elif what == "list":
        xs = [x[i % 3] * i if i % 4 else [x[0], i, f"s{i}"] for i in range(60)]
        utils.save_list(xs, p)
        S.check(tree_equal(S, xs, through(S, utils.load_list, p)), "equal list")
    else:
        fm = S.array([x[i % 3] + i for i in range(50)])
        utils.save_nmeas_estimate(1e12, 10**9, p, fm)
        K, n, f = through(S, utils.load_nmeas_estimate, p)
        S.check(K == 1e12 and n == 10**9, "estimate and number of terms")
        array_equal(S, fm, f, "frames")


NUMPY_INTS = {"int": int, "int64": np.int64, "int32": np.int32, "uint8": np.uint8}
NUMPY_COEFFICIENTS = [np.float64(0.5), np.float64(-1e-5), np.float32(0.1), np.float32(-3), np.complex128(1 - 2j), np.complex128(3j), np.complex64(0.1 + 0.7j),
                      np.complex64(2 - 3j), np.int64(3), np.int32(-7), np.int64(2**40), np.float16(0.25), np.complex128(1e-6)]


@scenario()
def numpy_numbers(S):
    """qubit indices and coefficients that came out of numpy arrays"""
    unsigned(S)
    q = NUMPY_INTS[S.choice("index", list(NUMPY_INTS))]
    k = S.choice("k", NUMPY_COEFFICIENTS)
    a = S.real("a", 0.1, 8)
    what = S.choice("what", ["term", "sum", "constant"])
    term = PauliTerm({} if what == "constant" else {q(2): "X", q(0): "Y", q(200): "Z"}, k)
    op = PauliSum([term, PauliTerm({q(1): "Z"}, a)]) if what == "sum" else term
    want = {tuple(sorted((int(i), term[i]) for i in term.qubits)): complex(k)}
    if what == "sum":
        want[((1, "Z"),)] = a
    how = S.choice("how", ["dict", "file", "list", "text"])
    p = S.tmp("op.json")
    if how == "dict":
        back = convert_dict_to_op(json.loads(json.dumps(convert_op_to_dict(op)))) if not S.symbolic else convert_dict_to_op(convert_op_to_dict(op))
    elif how == "file":
        save_operator(op, target(S, p))
        back = through(S, load_operator, p)
    elif how == "list":
        save_operator_set([op, PauliTerm("X1")], p)
        r = load_operator_set(p)
        S.check(len(r) == 2, "as many operators")
        back = r[0]
    else:
        back = PauliSum(str(op))
    S.check(isinstance(back, PauliSum), "a sum comes back")
    got = table(S, back)
    S.check(set(got) == set(want), "Pauli strings", info=list(got))
    for key in want:
        S.close(got.get(key, 0), want[key], f"{how}: coefficient", tol=1e-12)
        S.check(all(type(i) is int for t in back.terms for i in t.qubits), "plain qubit indices come back")
    S.check(set(table(S, op)) == set(want), "the operator is left alone")
