"""C04: every view of a simulated state agrees on which qubit is which."""
import itertools

import numpy as np
import sympy
from orquestra.quantum import circuits as C
from orquestra.quantum.circuits import Circuit, CustomGateDefinition
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.operators import PauliSum, PauliTerm
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator
from orquestra.quantum.wavefunction import Wavefunction, sample_from_wavefunction

from symx import sparse
from symx.api import scenario

from . import lib

setup_symbolic = sparse.register

BOUNDS = ("registers of 1-3 qubits (quick) / 4 (thorough) with arbitrary rotation angles, entanglers and idle qubits, and "
          "arbitrary normalised wavefunctions on 1-2 qubits; basis states of up to 4 (5) qubits, single excitations of 6 and 9 (10) qubits, one arbitrary rotation copied to a second qubit of a 5-6 qubit register, concrete 5-qubit states with some 24 possible outcomes, one simulator used for three different circuits, sample counts to 4097 and measured bitstrings of up to 70 bits; every Z-type operator on "
          "the register plus X/Y terms; sampling: every outcome the RNG contract allows, n_samples below, at and above "
          "2^n, the first 1-3 draws arbitrary and later draws repeating draw 0")
OUTSIDE = "wider registers; quality of numpy's generator (contract: returns elements with positive probability)"


def zops(n):
    return [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]


def parity(b, qs):
    return -1 if sum(b[q] for q in qs) % 2 else 1


def probs(ref):
    out = []
    for a in ref:
        out.append(a.real * a.real + a.imag * a.imag if not isinstance(a, (int, float)) else a * a)
    return out


def quad(S, ref, ops, n):
    M = lib.pauli_matrix(ops, n)
    v = lib.apply(M, ref)
    t = S.num(0)
    for a, b in zip(ref, v):
        if lib.is0(a) or lib.is0(b):
            continue
        t = t + S.num(a).conjugate() * b
    return t


def build(S, n, small=False):
    """(circuit, reference state)"""
    ops, U = [], lib.eye(2**n)
    for q in range(n):
        k = S.choice(f"g{q}", ["rx", "ry", "idle"] if q else ["rx", "ry"]) if not small else ("rx" if q % 2 == 0 else "ry")
        if k == "idle":
            continue
        th = S.real(f"th{q}", -7, 7)
        c, s = S.cos(th / 2), S.sin(th / 2)
        if k == "rx":
            ops.append(C.RX(th)(q))
            U = lib.mul(lib.embed([[c, -1j * s], [-1j * s, c]], [q], n), U)
        else:
            ops.append(C.RY(th)(q))
            U = lib.mul(lib.embed([[c, -1 * s], [s, c]], [q], n), U)
    if n > 1:
        ent = S.choice("ent", [None] + (list(itertools.permutations(range(n), 2)) if not small else [(0, n - 1), (n - 1, 0)]))
        if ent:
            ops.append(C.CNOT(*ent))
            U = lib.mul(lib.embed([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], ent, n), U)
    return Circuit(ops, n_qubits=n), lib.apply(U, [1] + [0] * (2**n - 1))


@scenario()
def exact_views(S):
    n = S.choice("n", [1, 2, 3, 4] if S.thorough else [1, 2, 3])
    c, ref = build(S, n, small=n >= 3)
    sim = SymbolicSimulator()
    wf = sim.get_wavefunction(c)
    S.check(wf.n_qubits == n and len(wf) == 2**n, "register width of the state")
    S.close_all(zip(wf.amplitudes, ref), "amplitude order")
    P = probs(ref)
    S.close_all(zip(wf.get_probabilities(), P), "probabilities follow the amplitudes")
    d = sim.get_measurement_outcome_distribution(c).distribution_dict
    S.check(set(d) <= set(itertools.product([0, 1], repeat=n)), "outcomes are n-bit tuples")
    S.close_all([(d.get(b, 0), P[lib.index(b)]) for b in itertools.product([0, 1], repeat=n)],
                "exact distribution: position q is qubit q", tol=1e-6)
    for qs in zops(n):
        op = PauliTerm({q: "Z" for q in qs}, 1.0)
        e = sim.get_exact_expectation_values(c, op)
        S.close(e, sum((parity(b, qs) * P[lib.index(b)] for b in itertools.product([0, 1], repeat=n)), S.num(0)),
                f"exact <Z{qs}> is the eigenvalue average under the exact distribution", tol=1e-6)


@scenario()
def exact_expectation_any_pauli(S):
    n = S.choice("n", [1, 2, 3] if S.thorough else [1, 2])
    c, ref = build(S, n, small=n >= 3)
    s = S.choice("s", list(itertools.product("IXYZ", repeat=n)) if n < 3 else
                 [tuple("XYZ"), tuple("ZIX"), tuple("IYX"), tuple("ZZY"), tuple("YII")])
    ops = {q: p for q, p in enumerate(s) if p != "I"}
    k, k2 = S.real("k"), S.real("k2")
    op = PauliSum([PauliTerm(ops, k), PauliTerm({0: "Z"}, k2)])
    want = k * quad(S, ref, ops, n) + k2 * quad(S, ref, {0: "Z"}, n)
    S.close(SymbolicSimulator().get_exact_expectation_values(c, op), want.real, f"exact expectation of {''.join(s)}",
            tol=1e-6)


def check_samples(S, bitstrings, n_samples, n, P, exact=True):
    S.check(len(bitstrings) == n_samples if exact else len(bitstrings) >= n_samples, "number of samples")
    for b in bitstrings[:4] + bitstrings[-1:]:
        S.check(isinstance(b, tuple) and len(b) == n and all(x in (0, 1) for x in b), f"sample {b} is an n-bit tuple")
        S.check(S.num(P[lib.index(b)]) > 0, f"sampled outcome {b} has positive exact probability")
    S.check(all(len(b) == n for b in bitstrings), "all samples have the register's width")


def check_measured(S, m, n):
    """counts and expectation values of measurements use position q for qubit q"""
    bs = m.bitstrings
    counts = m.get_counts()
    want = {}
    for b in bs:
        k = "".join(str(int(x)) for x in b)
        want[k] = want.get(k, 0) + 1
    S.check(counts == want, f"count strings {counts}")
    ops = zops(n)
    ev = m.get_expectation_values(PauliSum([PauliTerm({q: "Z" for q in qs}, 1.0) for qs in ops]))
    S.close_all([(v, sum(parity(b, qs) for b in bs) / len(bs)) for v, qs in zip(ev.values, ops)],
                "expectation values from measurements")
    d = m.get_distribution().distribution_dict
    S.close_all([(d.get(b, 0), bs.count(b) / len(bs)) for b in itertools.product([0, 1], repeat=n)],
                "empirical distribution")


@scenario(weight=2)
def sampling(S):
    n = S.choice("n", [1, 2, 3])
    S.rng_free = {1: 2, 2: 2, 3: 1}[n] + (1 if S.thorough else 0)
    few = S.choice("few", [1, 2**n, 2**n + 1] if n < 3 else [2, 9])
    c, ref = build(S, n, small=n >= 2)
    m = SymbolicSimulator().run_and_measure(c, few)
    check_samples(S, m.bitstrings, few, n, probs(ref))
    check_measured(S, m, n)


@scenario()
def sampled_distribution(S):
    n = S.choice("n", [1, 2])
    S.rng_free = 2
    few = S.choice("few", [2, 5])
    c, ref = build(S, n, small=True)
    d = SymbolicSimulator().get_measurement_outcome_distribution(c, few).distribution_dict
    P = probs(ref)
    for b, v in d.items():
        S.check(len(b) == n and S.num(P[lib.index(b)]) > 0 if not S.symbolic else len(b) == n, "outcome width")
        S.check(S.num(P[lib.index(b)]) > 0, f"sampled outcome {b} possible")
    S.close(sum(d.values()), 1, "normalised")


@scenario()
def sampling_any_state(S):
    n = S.choice("n", [1, 2])
    psi = S.unit("a", 2**n)
    S.rng_free = 2
    few = S.choice("few", [2, 2**n + 1])
    v = np.array(psi, dtype=complex) if not S.symbolic else psi
    bs = sample_from_wavefunction(Wavefunction(v), few)
    check_samples(S, list(bs), few, n, probs(psi))


@scenario()
def sampling_spread_state(S):
    """dozens of possible outcomes with different weights next to impossible ones: the impossible ones are never drawn"""
    n = S.choice("n", [4, 5, 6] if S.thorough else [5])
    S.rng_free = 1
    holes = S.choice("holes", ["last", "scattered", "none with qubit 1 and 3"])
    dead = {"last": lambda b: b[0] and b[1], "scattered": lambda b: lib.index(b) * 7 % 5 == 2,
            "none with qubit 1 and 3": lambda b: b[1] and b[3]}[holes]
    outcomes = list(itertools.product([0, 1], repeat=n))
    step = S.choice("step", [3, 5])
    w = [0.0 if dead(b) else float((lib.index(b) * step) % 11 + 1) for b in outcomes]
    amps = np.array([(x / sum(w)) ** 0.5 for x in w]).astype(complex)
    few = S.choice("few", [1, 3, 2**n + 1])
    bs = list(sample_from_wavefunction(Wavefunction(amps), few))
    S.check(len(bs) == few, "number of samples")
    for b in set(bs):
        S.check(len(b) == n and not dead(b), f"sampled outcome {b} has positive probability")


@scenario()
def one_simulator_many_circuits(S):
    """a simulator's answer depends on the circuit it is given, not on those it has seen"""
    n = 2
    sim = SymbolicSimulator()
    q = S.choice("q", [0, 1])
    k = S.real("k")
    kind = S.choice("kind", ["same name", "close angles", "same printout", "edited circuit"])
    ths = [S.real("t0", -7, 7), S.real("t1", -7, 7)]
    op = PauliTerm({q: "Z"}, k)
    circ = None
    for i in (0, 1, 0):
        c_, s_ = S.cos(ths[i] / 2), S.sin(ths[i] / 2)
        if kind == "same name":
            g = C.CustomGateDefinition("turn", sympy.Matrix([[S.number(c_), S.number(-1 * s_)], [S.number(s_), S.number(c_)]]), ())()
        elif kind == "same printout":
            g = C.RY(sympy.Float(0.5 + 1e-7 * i, 15))
        else:
            g = C.RY(ths[i])
        z = S.cos(ths[i])
        if kind == "same printout":
            z = np.cos(0.5 + 1e-7 * i)
        if kind == "edited circuit" and circ is not None:
            circ.operations[0] = g(q)
        else:
            circ = Circuit([g(q)], n_qubits=n)
        S.close(sim.get_exact_expectation_values(circ, op), k * z, "exact expectation", tol=1e-9)
        d = sim.get_measurement_outcome_distribution(circ).distribution_dict
        S.close(sum(v for b, v in d.items() if b[q]), (1 - z) / 2, "exact distribution", tol=1e-9)
        one = [a for j, a in enumerate(sim.get_wavefunction(circ).amplitudes) if j not in (0, 2 ** (n - 1 - q))]
        S.close_all([(a, 0) for a in one], "amplitudes elsewhere")


@scenario()
def basis_states(S):
    """X gates on a subset of a wider register: every view shows exactly that bitstring"""
    n = S.choice("n", [2, 3, 4, 5] if S.thorough else [2, 3, 4])
    b = tuple(S.choice(f"b{q}", [0, 1]) for q in range(n))
    few = S.choice("few", [1, 2**n, 2**n + 1])
    c = Circuit([C.X(q) for q in range(n) if b[q]], n_qubits=n)
    sim = SymbolicSimulator()
    m = sim.run_and_measure(c, few)
    S.check(m.bitstrings == [b] * few, "sampled tuple is the prepared bitstring")
    S.check(m.get_counts() == {"".join(map(str, b)): few}, "counts of the prepared bitstring")
    d = sim.get_measurement_outcome_distribution(c).distribution_dict
    S.close_all([(v, 1 if k == b else 0) for k, v in d.items()], "exact distribution of a basis state")
    qs = S.choice("qs", [(0,), (n - 1,), (0, n - 1), tuple(range(n))])
    op = PauliTerm({q: "Z" for q in qs}, S.real("k"))
    S.close(sim.get_exact_expectation_values(c, op), parity(b, qs) * op.coefficient, "exact expectation")
    S.close(m.get_expectation_values(op).values[0], parity(b, qs) * op.coefficient, "measured expectation")


@scenario()
def wide_registers(S):
    """one qubit of a register beyond a byte: simulator, counts, exact and measured values name the same qubit"""
    n = S.choice("n", [6, 7, 9, 10] if S.thorough else [6, 9])
    q = S.choice("q", list(range(n)) if S.thorough else [1, n - 1])
    c = Circuit([C.X(q)], n_qubits=n)
    sim = SymbolicSimulator()
    b = tuple(int(r == q) for r in range(n))
    m = sim.run_and_measure(c, 2)
    S.check(m.bitstrings == [b] * 2, "sampled tuple is the prepared bitstring")
    S.check(m.get_counts() == {"".join(map(str, b)): 2}, "counts of the prepared bitstring")
    k = S.real("k")
    for r in range(n):
        op = PauliTerm({r: "Z"}, k)
        S.close(m.get_expectation_values(op).values[0], -k if r == q else k, f"measured <Z{r}>")
    # one exact evaluation per kind of operator: lowest/highest qubit, wide and narrow
    pick = S.choice("op", ["sum"] if n > 6 else ["own", "pair", "sum", "far", "all"])
    if pick == "own":
        op, want = PauliTerm({q: "Z"}, k), -k
    elif pick == "pair":
        op, want = PauliTerm({q: "Z", (q + 2) % n: "Z"}, k), -k
    elif pick == "sum":
        op, want = PauliSum([PauliTerm({r: "Z"}, k * (r + 1)) for r in range(n)]), k * (n * (n + 1) // 2 - 2 * (q + 1))
    elif pick == "far":
        op, want = PauliSum([PauliTerm({n - 1: "Z"}, k), PauliTerm({0: "Z", 2: "Z"}, 2.0)]), k * (-1 if q == n - 1 else 1) + 2.0
    else:
        op, want = PauliTerm({r: "Z" for r in range(n) if r != q}, k), k
    S.close(sim.get_exact_expectation_values(c, op), want, "exact expectation")
    p = sim.get_wavefunction(c).get_probabilities()
    S.close(p[lib.index(b)], 1, "probability of the prepared bitstring")


@scenario()
def wide_measurements(S):
    n = S.choice("n", [1, 5, 8, 9, 16, 17, 33, 40, 65, 70])
    q = S.choice("q", [0, 1, n // 2, n - 2, n - 1, 7, 8, 15, 16, 31, 32, 63, 64])
    if not 0 <= q < n:
        return
    one = tuple(int(r == q) for r in range(n))
    ones = tuple(int(r != q) for r in range(n))
    shots = [one, ones, one] if S.flag("mixed") else [one]
    m = Measurements(list(shots))
    k = S.real("k")
    for r in sorted({0, 1, q, q - 1, q + 1, n - 1, n // 2}):
        if 0 <= r < n:
            S.close(m.get_expectation_values(PauliTerm({r: "Z"}, k)).values[0], k * sum(parity(b, (r,)) for b in shots) / len(shots),
                    f"measured <Z{r}>")
            qs = (q, r) if r != q else (q, (q + 1) % n)
            if qs[0] != qs[1]:
                S.close(m.get_expectation_values(PauliTerm({x: "Z" for x in qs}, k)).values[0],
                        k * sum(parity(b, qs) for b in shots) / len(shots), f"measured <Z Z> on {qs}")
    d = m.get_distribution().distribution_dict
    S.close_all([(d.get(b, 0), shots.count(b) / len(shots)) for b in shots], "empirical distribution")
    S.check(set(d) == set(shots), "outcomes named as sampled")


@scenario()
def gate_qubits_match(S):
    """a gate with arbitrary angle on one qubit only changes that position"""
    n = S.choice("n", [2, 3, 4])
    q = S.choice("q", list(range(n)))
    th = S.real("th", -7, 7)
    c = Circuit([C.RY(th)(q)], n_qubits=n)
    sim = SymbolicSimulator()
    for r in range(n):
        S.close(sim.get_exact_expectation_values(c, PauliTerm({r: "Z"}, 1.0)), S.cos(th) if r == q else 1, f"<Z{r}>")
    d = sim.get_measurement_outcome_distribution(c).distribution_dict
    S.close(sum((v for k, v in d.items() if k[q] == 1), S.num(0)), (1 - S.cos(th)) / 2, "marginal of the gate's qubit",
            tol=1e-6)
    S.close(sum((v for k, v in d.items() if any(k[r] for r in range(n) if r != q)), S.num(0)), 0,
            "other qubits stay 0", tol=1e-6)


@scenario()
def entangled_wide(S):
    """a rotated qubit and a copy of it on a 5-6 qubit register: all views name the same two qubits"""
    n = S.choice("n", [5, 6])
    q, r = S.choice("qr", [(0, n - 1), (n - 2, 1), (2, 3), (3, 0)])
    S.rng_free = 1
    th = S.real("th", 0.1, 3)
    c = Circuit([C.RY(th)(q), C.CNOT(q, r)], n_qubits=n)
    sim = SymbolicSimulator()
    both = tuple(int(x in (q, r)) for x in range(n))
    none = (0,) * n
    p1 = (1 - S.cos(th)) / 2
    d = sim.get_measurement_outcome_distribution(c).distribution_dict
    S.close_all([(v, p1 if b == both else 1 - p1 if b == none else 0) for b, v in d.items()], "exact distribution", tol=1e-6)
    S.check(set(d) <= set(itertools.product([0, 1], repeat=n)), "outcomes are n-bit tuples")
    k = S.real("k")
    for ops, want in (({q: "Z"}, S.cos(th)), ({r: "Z"}, S.cos(th)), ({q: "Z", r: "Z"}, S.num(1)), ({q: "X", r: "X"}, S.sin(th)),
                      ({q: "Y", r: "Y"}, -S.sin(th)), ({q: "Z", [x for x in range(n) if x not in (q, r)][-1]: "Z"}, S.cos(th))):
        S.close(sim.get_exact_expectation_values(c, PauliTerm(ops, k)), k * want, f"exact expectation of {ops}", tol=1e-6)
    few = S.choice("few", [1, 3, 2**n + 3])
    m = sim.run_and_measure(c, few)
    S.check(len(m.bitstrings) == few, "number of samples")
    S.check(set(m.bitstrings) <= {both, none}, "only possible outcomes")
    S.check(set(m.get_counts()) <= {"".join(map(str, both)), "".join(map(str, none))}, "count strings")
    share = sum(1 for b in m.bitstrings if b == both) / few
    S.close(m.get_expectation_values(PauliTerm({q: "Z", r: "Z"}, k)).values[0], k, "measured <ZZ>")
    S.close(m.get_expectation_values(PauliTerm({r: "Z"}, k)).values[0], k * (1 - 2 * share), "measured <Z>")


@scenario()
def many_samples(S):
    """sample counts far above and around powers of two and ten"""
    n = S.choice("n", [1, 2, 3])
    few = S.choice("few", [8, 64, 100, 257, 1000, 1024, 4097])
    b = tuple(S.choice(f"b{q}", [0, 1]) for q in range(n))
    c = Circuit([C.X(q) for q in range(n) if b[q]], n_qubits=n)
    m = SymbolicSimulator().run_and_measure(c, few)
    S.check(len(m.bitstrings) == few and set(m.bitstrings) == {b}, "sampled tuples")
    S.check(m.get_counts() == {"".join(map(str, b)): few}, "counts")
    d = SymbolicSimulator().get_measurement_outcome_distribution(c, few).distribution_dict
    S.check(set(k for k, v in d.items() if v) == {b}, "sampled distribution")
    k = S.real("k")
    for q in range(n):
        S.close(m.get_expectation_values(PauliTerm({q: "Z"}, k)).values[0], k * parity(b, (q,)), "measured expectation")
