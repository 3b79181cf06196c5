"""C15: estimation returns one correctly weighted result per task, in task order."""
import itertools

import sympy
from orquestra.quantum import circuits as C
from orquestra.quantum.api import BaseCircuitRunner, EstimationTask
from orquestra.quantum.circuits import Circuit
from orquestra.quantum.estimation import (calculate_exact_expectation_values, estimate_expectation_values_by_averaging,
                                          evaluate_estimation_circuits, split_estimation_tasks_to_measure)
from orquestra.quantum.measurements import ExpectationValues, Measurements
from orquestra.quantum.operators import PauliSum, PauliTerm
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator

from symx import sparse
from symx.api import Caught, scenario

from . import lib

setup_symbolic = sparse.register

BOUNDS = ("lists of 0-3 (thorough 4) tasks of every kind in every order: measured term / sum (overlapping, with constants), constant "
          "term, sums of 1-3 constants, the empty sum, zero-shot tasks, constant with and without shots; arbitrary real coefficients "
          "(|c|<=8) and integer ones, arbitrary positive shot counts 1-3 with a device that returns that many or more shots; shared and "
          "distinct circuits; basis states of 1-3 (4) qubits with 1 to 2^n+1 shots through the simulator; exact values: 1-3 qubit circuits "
          "with arbitrary angles, every Pauli string and sums of two with arbitrary coefficients; bindings of 0-3 tasks with arbitrary "
          "values, partial maps, foreign symbols and symbols for symbols; lists of up to 21 (40) tasks in regular patterns of kinds; basis states of "
          "4-6 (8) qubits with operators of ten terms and up to 130 shots; complex constants")
OUTSIDE = "longer lists; operators acting outside the circuit's register; number_of_shots=None for measured tasks; rounding"

# what the device measures on circuit number i, shot by shot
SHOTS = [[(0, 1), (1, 1), (0, 0)], [(1, 0), (1, 0), (0, 1)], [(1, 1), (0, 0), (1, 0)], [(0, 0), (0, 1), (1, 1)]]


class Device(BaseCircuitRunner):
    def __init__(self, table, extra=0):
        super().__init__()
        self.table, self.extra, self.asked = table, extra, []

    def _run_and_measure(self, circuit, n_samples):
        self.asked.append((circuit, n_samples))
        for c, bits in self.table:
            if c == circuit:
                return Measurements([bits[s % len(bits)] for s in range(int(n_samples) + self.extra)])
        raise AssertionError("a circuit no task has")


def sign(b, qs):
    return -1 if sum(b[q] for q in qs) % 2 else 1


def z(qs, c):
    return PauliTerm({q: "Z" for q in qs}, c)


def total(S, xs):
    t = S.num(0)
    for x in xs:
        t = t + x
    return t


KINDS = ["term", "sum", "const", "zero shots", "consts", "empty", "const0", "zero sum"]


class Task:
    def __init__(self, S, i, circuit, kinds, hi=3):
        self.kind = S.choice(f"kind{i}", kinds)
        self.circuit = circuit
        self.n = S.int(f"n{i}", 1, hi)
        a, b = S.real(f"a{i}", -8, 8), S.real(f"b{i}", -8, 8)
        if self.kind == "term":
            self.supports, self.cs = [(i % 2,)], [a]
            op = z((i % 2,), a)
        elif self.kind == "sum":
            self.supports = [[(0, 1), (0,), ()], [(), (1,)], [(1,), (0, 1)], [(0,), (0,)]][i % 4]
            self.cs = [a, b, 3][:len(self.supports)]
            op = PauliSum([z(s, c) for s, c in zip(self.supports, self.cs)])
        elif self.kind in ("const", "const0"):
            self.supports, self.cs = [()], [a]
            op = z((), a)
            if i % 2:
                op = PauliSum([op])
        elif self.kind == "consts":
            self.supports, self.cs = [()] * 3, [a, 2, b]
            op = PauliSum([z((), c) for c in self.cs])
        elif self.kind == "empty":
            self.supports, self.cs = [], []
            op = PauliSum()
        elif self.kind == "zero shots":
            self.supports, self.cs = [(1,)], [a]
            op = z((1,), a)
        else:
            self.supports, self.cs = [(), (0,)], [a, b]
            op = PauliSum([z(s, c) for s, c in zip(self.supports, self.cs)])
        if self.kind in ("zero shots", "const0", "zero sum"):
            self.n = 0
        elif self.kind == "consts" and i % 2:
            self.n = None
        self.task = EstimationTask(op, circuit, self.n)

    @property
    def measured(self):
        return self.kind in ("term", "sum")

    def check(self, S, ev, bits, what):
        S.check(isinstance(ev, ExpectationValues), f"{what}: type")
        if self.measured:
            S.check(len(ev.values) == len(self.cs), f"{what}: one value per term")
            for v, s, c in zip(ev.values, self.supports, self.cs):
                S.close(v, S.num(c) * (sum(sign(b, s) for b in bits) / len(bits)), f"{what}: weighted value of term {s}")
        elif self.kind in ("zero shots", "zero sum"):
            S.close(total(S, list(ev.values)), 0, f"{what}: zero-shot task gives zero")
        else:
            S.close(total(S, list(ev.values)), total(S, self.cs), f"{what}: constant task gives its constant", tol=1e-12)


def make_tasks(S, k, kinds, shared=False, hi=3):
    # circuits are told apart by their angle
    circuits = [Circuit([C.RX(0.25 * (1 if shared else i + 1))(0)], n_qubits=2) for i in range(k)]
    return [Task(S, i, circuits[i], kinds, hi) for i in range(k)]


@scenario(weight=3)
def averaging(S):
    k = S.choice("tasks", [0, 1, 2, 3, 4] if S.thorough else [0, 1, 2, 3])
    kinds = KINDS if k < 3 or (S.thorough and k == 3) else ["sum", "const", "zero shots"] + (["term"] if k == 3 else [])
    ts = make_tasks(S, k, kinds, hi=3 if k < 3 else 2)
    dev = Device([(t.circuit, SHOTS[i]) for i, t in enumerate(ts)], S.choice("extra", [0, 1]) if k < 3 else 0)
    tasks = [t.task for t in ts]
    ops = [t.task.operator for t in ts]
    r = S.catch(estimate_expectation_values_by_averaging, dev, tasks)
    if isinstance(r, Caught):
        S.fail(f"estimation fails: {r!r}")
        return
    S.check(len(r) == k, "one result per task")
    S.check(len(tasks) == k and all(a is b.task for a, b in zip(tasks, ts)) and all(a.operator is o for a, o in zip(tasks, ops)), "tasks unchanged")
    S.check(all(any(t.circuit is c or t.circuit == c for t in ts if t.measured) for c, _ in dev.asked), "only measured tasks are run")
    for i, (t, ev) in enumerate(zip(ts, r)):
        n = int(t.n) + dev.extra if t.measured else 0
        t.check(S, ev, [SHOTS[i][s % 3] for s in range(n)], f"task {i}")


@scenario()
def shared_circuits(S):
    """tasks with equal circuits but different operators and counts"""
    k = S.choice("tasks", [2, 3])
    ts = make_tasks(S, k, ["term", "sum", "const", "zero shots"], shared=True, hi=2)
    b = S.choice("bits", list(itertools.product((0, 1), repeat=2)))
    r = estimate_expectation_values_by_averaging(Device([(ts[0].circuit, [b])]), [t.task for t in ts])
    S.check(len(r) == k, "one result per task")
    for i, (t, ev) in enumerate(zip(ts, r)):
        t.check(S, ev, [b], f"task {i}")


@scenario()
def same_task_objects(S):
    """the same task listed several times"""
    t = Task(S, S.choice("i", [0, 1]), Circuit([C.RX(0.25)(0)], n_qubits=2), KINDS)
    other = Task(S, 2, Circuit([C.RX(0.5)(0)], n_qubits=2), ["const", "term"])
    order = S.choice("order", [(0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 0)])
    r = estimate_expectation_values_by_averaging(Device([(t.circuit, [(0, 1)]), (other.circuit, [(1, 1)])]), [(t, other)[j].task for j in order])
    S.check(len(r) == len(order), "one result per task")
    for j, ev in zip(order, r):
        (t, other)[j].check(S, ev, [(1, 1) if j else (0, 1)], "task")


@scenario()
def splitting(S):
    k = S.choice("tasks", [0, 1, 2, 3])
    ops = []
    tasks = []
    for i in range(k):
        const = S.flag(f"const{i}")
        n = S.int(f"n{i}", 0, 10**9)
        op = z(() if const else (0,), S.real(f"c{i}", -8, 8))
        ops.append((const, n))
        tasks.append(EstimationTask(op, Circuit([C.X(0)]), n))
    a, b, ia, ib = split_estimation_tasks_to_measure(tasks)
    S.check(sorted(list(ia) + list(ib)) == list(range(k)), "every index once")
    S.check(len(a) == len(ia) and len(b) == len(ib), "as many tasks as indices")
    for t, i in list(zip(a, ia)) + list(zip(b, ib)):
        S.check(t is tasks[i] or t == tasks[i], "the task at its index")
    for i, (const, n) in enumerate(ops):
        S.check(S.eq(n, 0) if not const and i in ib else True, "a non-constant task with shots is measured")
        S.check(n > 0 if i in ia else True, "a task without shots is not measured")
        S.check(not (const and i in ia), "a constant task is not measured")


@scenario(weight=2)
def basis_states(S):
    """exact for every shot count, through the simulator"""
    n = S.choice("n", [1, 2, 3, 4] if S.thorough else [1, 2, 3])
    b = tuple(S.choice(f"b{q}", [0, 1]) for q in range(n))
    prep = S.choice("prep", ["x", "cnot"] if n > 1 else ["x"])
    ops = [C.X(q) for q in range(n) if b[q]]
    if prep == "cnot":  # CNOT chain and its inverse permutation of the basis state
        ops = [C.X(q) for q in range(n) if (b[q] ^ b[q - 1] if q else b[0])] + [C.CNOT(q, q + 1) for q in range(n - 1)]
    c = Circuit(ops, n_qubits=n)
    shots = S.choice("shots", [1, 2, 2**n, 2**n + 1])
    supports = [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)] + [(), (0,)]
    single = S.flag("single")
    if single:
        supports = [S.choice("support", [(0,), (n - 1,), tuple(range(n))])]
    cs = [S.real(f"c{i}", -8, 8) for i in range(len(supports))]
    op = z(supports[0], cs[0]) if single else PauliSum([z(s, k) for s, k in zip(supports, cs)])
    const = S.real("const", -8, 8)
    tasks = [EstimationTask(z((), const), c, 3), EstimationTask(op, c, shots), EstimationTask(op, c, 0)]
    order = S.choice("order", [(0, 1, 2), (1, 0, 2), (2, 1, 0)])
    r = estimate_expectation_values_by_averaging(SymbolicSimulator(), [tasks[j] for j in order])
    S.check(len(r) == 3, "one result per task")
    for j, ev in zip(order, r):
        if j == 0:
            S.close(total(S, list(ev.values)), const, "constant", tol=1e-12)
        elif j == 2:
            S.close(total(S, list(ev.values)), 0, "zero shots")
        else:
            S.check(len(ev.values) == len(cs), "one value per term")
            for v, s, k in zip(ev.values, supports, cs):
                S.close(v, k * sign(b, s), f"coefficient times eigenvalue on {s}", tol=1e-12)
    if single and shots == 1:
        ex = calculate_exact_expectation_values(SymbolicSimulator(), [tasks[j] for j in order])
        S.check(len(ex) == 3, "one exact value per task")
        for j, ev in zip(order, ex):
            S.close(total(S, list(ev.values)), const if j == 0 else cs[0] * sign(b, supports[0]), "exact value")


def state_circuit(S, n, tag):
    """(circuit, state) with arbitrary angles"""
    ops, U = [], lib.eye(2**n)
    for q in range(n):
        th = S.real(f"{tag}th{q}", -7, 7)
        c, s = S.cos(th / 2), S.sin(th / 2)
        if (q + len(tag)) % 2:
            ops.append(C.RX(th)(q))
            U = lib.mul(lib.embed([[c, -1j * s], [-1j * s, c]], [q], n), U)
        else:
            ops.append(C.RY(th)(q))
            U = lib.mul(lib.embed([[c, -1 * s], [s, c]], [q], n), U)
    if n > 1:
        ent = S.choice(tag + "ent", [(0, n - 1), (n - 1, 0)])
        ops.append(C.CNOT(*ent))
        U = lib.mul(lib.embed([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], ent, n), U)
    return Circuit(ops, n_qubits=n), lib.apply(U, [1] + [0] * (2**n - 1))


def quad(S, ref, ops, n):
    v = lib.apply(lib.pauli_matrix(ops, n), ref)
    t = S.num(0)
    for a, b in zip(ref, v):
        if not (lib.is0(a) or lib.is0(b)):
            t = t + S.num(a).conjugate() * b
    return t


@scenario(weight=2)
def exact_values(S):
    n = S.choice("n", [1, 2, 3] if S.thorough else [1, 2])
    c, ref = state_circuit(S, n, "a")
    s = S.choice("s", list(itertools.product("IXYZ", repeat=n)) if n < 3 else [tuple("XYZ"), tuple("IYX"), tuple("ZZY"), tuple("XXI")])
    ops = {q: p for q, p in enumerate(s) if p != "I"}
    k1, k2 = S.real("k1"), S.real("k2")
    other = {n - 1: S.choice("p", ["X", "Z"])}
    tasks = [EstimationTask(PauliTerm(ops, k1), c, 0),
             EstimationTask(PauliSum([PauliTerm(other, k2), PauliTerm(ops, k1), PauliTerm({}, k2)]), c, 5),
             EstimationTask(PauliSum(), c, None)]
    r = calculate_exact_expectation_values(SymbolicSimulator(), tasks)
    S.check(len(r) == 3, "one result per task")
    q1, q2 = quad(S, ref, ops, n).real, quad(S, ref, other, n).real
    for ev, want in zip(r, [k1 * q1, k2 * q2 + k1 * q1 + k2, S.num(0)]):
        S.close(total(S, list(ev.values)), want, f"quadratic form of {''.join(s)}", tol=1e-6)


@scenario()
def exact_order(S):
    """different circuits and operators stay with their task"""
    k = S.choice("k", [0, 1, 2, 3])
    cs, ths = [S.real(f"c{i}", -8, 8) for i in range(k)], [S.real(f"t{i}", -7, 7) for i in range(k)]
    tasks = [EstimationTask(PauliTerm("Z0", cs[i]) if S.flag(f"z{i}") else PauliSum([PauliTerm("X0", cs[i])]), Circuit([C.RY(ths[i])(0)]), i) for i in range(k)]
    r = calculate_exact_expectation_values(SymbolicSimulator(), tasks)
    S.check(len(r) == k, "one result per task")
    for i in range(k):
        f = S.cos(ths[i]) if isinstance(tasks[i].operator, PauliTerm) else S.sin(ths[i])
        S.close(total(S, list(r[i].values)), cs[i] * f, f"exact value of task {i}")


A, B, D = sympy.symbols("alpha beta delta")


@scenario()
def binding(S):
    k = S.choice("tasks", [0, 1, 2, 3])
    tasks, maps, envs = [], [], []
    for i in range(k):
        gates = S.choice(f"g{i}", ["ab", "a", "none"]) if i < 2 else "ab"
        ops = {"ab": [C.RX(A)(0), C.PHASE(A + 2 * B)(1)], "a": [C.RY(A * 3)(1)], "none": [C.X(0)]}[gates]
        n = S.int(f"n{i}", 0, 10**6)
        op = z((i % 2,), S.real(f"c{i}", -8, 8))
        tasks.append(EstimationTask(op, Circuit(ops, n_qubits=2 + i), n))
        m = S.choice(f"m{i}", ["full", "part", "empty", "foreign", "swap"])
        v, w = S.real(f"v{i}", -7, 7), S.real(f"w{i}", -7, 7)
        maps.append({"full": {A: v, B: w}, "part": {A: v}, "empty": {}, "foreign": {D: v, B: w}, "swap": {A: B, B: A}}[m])
    before = [(t.operator, t.circuit, t.number_of_shots, list(t.circuit.operations), t.circuit.n_qubits) for t in tasks]
    mbefore = [dict(m) for m in maps]
    r = evaluate_estimation_circuits(tasks, maps)
    S.check(len(r) == k, "one task per task")
    S.check(all(t.operator is o and t.circuit is c and t.number_of_shots is n and list(t.circuit.operations) == ops and t.circuit.n_qubits == w
                for t, (o, c, n, ops, w) in zip(tasks, before)), "original tasks unchanged")
    S.check(all(a.keys() == b.keys() for a, b in zip(maps, mbefore)), "maps unchanged")
    fresh = {A: S.real("fa", -7, 7), B: S.real("fb", -7, 7)}
    for t, m, u in zip(tasks, maps, r):
        S.check(u.operator is t.operator or u.operator == t.operator, "operator unchanged")
        S.check(S.eq(u.number_of_shots, t.number_of_shots), "shots unchanged")
        S.check(u.circuit.n_qubits == t.circuit.n_qubits and len(u.circuit.operations) == len(t.circuit.operations), "circuit keeps its shape")
        full = {s: (fresh[m[s]] if isinstance(m[s], sympy.Symbol) else m[s]) if s in m else fresh[s] for s in (A, B)}
        left = set()
        for s in t.circuit.free_symbols:
            left |= ({m[s]} if isinstance(m[s], sympy.Symbol) else set()) if s in m else {s}
        S.check(set(u.circuit.free_symbols) == left, "free symbols left")
        for p, q in zip(t.circuit.operations, u.circuit.operations):
            S.check(p.qubit_indices == q.qubit_indices, "same qubits")
            S.close_mat(S.ev(q.gate.matrix, fresh), S.ev(p.gate.matrix, full), "each task's circuit is bound with its own map")


class Mixed:
    """tasks of every kind in a pattern, with their own counts"""

    def __init__(self, S, k, pattern, symbolic_at):
        self.tasks, self.want = [], []
        table = []
        for i in range(k):
            kind = pattern[i % len(pattern)]
            sym = i in symbolic_at
            a = S.real(f"a{i}", 0.5, 8) if sym else (i - 4) / 2 + 0.25
            n = S.int(f"n{i}", 1, 3) if sym else 1 + (i * 2) % 3
            c = Circuit([C.RX(0.25 * (i + 1))(0)], n_qubits=2)
            bits = [SHOTS[i % 4][(j + i // 4) % 3] for j in range(3)]
            if kind == "m":
                op, want = z((i % 2,), a), [((i % 2,), a)]
            elif kind == "s":
                op = PauliSum([z((0, 1), a), z((), 3), z((1,), -2)])
                want = [((0, 1), a), ((), 3), ((1,), -2)]
            elif kind == "c":
                op, want = z((), a), a
            elif kind == "d":
                op, want = PauliSum([z((), a), z((), 1j), z((), -4)]), a - 4 + 1j
            else:  # zero-shot task
                op, want, n = z((1,), a), 0, 0
            self.tasks.append(EstimationTask(op, c, n))
            self.want.append((want, bits, n))
            table.append((c, bits))
        self.dev = Device(table, 0)

    def check(self, S, r):
        S.check(len(r) == len(self.want), "one result per task")
        for i, ((want, bits, n), ev) in enumerate(zip(self.want, r)):
            if isinstance(want, list):
                n = int(n)
                S.check(len(ev.values) == len(want), f"task {i}: one value per term")
                for v, (s, c) in zip(ev.values, want):
                    S.close(v, S.num(c) * (sum(sign(bits[j % 3], s) for j in range(n)) / n), f"task {i}: weighted value of term {s}")
            else:
                S.close(total(S, list(ev.values)), want, f"task {i}: value of a task that is not measured", tol=1e-12)


@scenario()
def long_lists(S):
    k = S.choice("tasks", [5, 9, 13, 21] + ([40] if S.thorough else []))
    pattern = S.choice("pattern", ["m", "mc", "cm", "mz", "msczd", "czm", "ms", "mmmmmmmmmmc"])
    m = Mixed(S, k, pattern, (0, k - 1))
    tasks = list(m.tasks)
    r = S.catch(estimate_expectation_values_by_averaging, m.dev, tasks)
    if isinstance(r, Caught):
        S.fail(f"estimation fails: {r!r}")
        return
    m.check(S, r)
    S.check(all(a is b for a, b in zip(tasks, m.tasks)) and len(tasks) == k, "tasks unchanged")
    a, b, ia, ib = split_estimation_tasks_to_measure(tasks)
    S.check(sorted(list(ia) + list(ib)) == list(range(k)) and len(a) == len(ia) and len(b) == len(ib), "every index once")
    S.check(all(t is tasks[i] or t == tasks[i] for t, i in list(zip(a, ia)) + list(zip(b, ib))), "the task at its index")


@scenario()
def complex_constants(S):
    """a constant operator yields exactly its constant, whatever number it is"""
    k = S.choice("terms", [1, 2, 3, 5])
    cs = [S.cplx(f"c{i}", 8) if i < 2 else 1j - i for i in range(k)]
    op = PauliSum([PauliTerm({}, c) for c in cs]) if k > 1 or S.flag("sum") else PauliTerm({}, cs[0])
    c = Circuit([C.X(0)], n_qubits=1)
    n = S.choice("shots", [0, 1, 7, None])
    m = EstimationTask(z((0,), S.real("a", -8, 8)), c, 2)
    tasks = S.choice("order", [0, 1])
    t = EstimationTask(op, c, n)
    r = estimate_expectation_values_by_averaging(Device([(c, [(1,)])]), [t, m] if tasks == 0 else [m, t, t])
    S.check(len(r) == 2 + tasks, "one result per task")
    for j in ([0] if tasks == 0 else [1, 2]):
        S.close(total(S, list(r[j].values)), total(S, cs), "constant", tol=1e-12)


@scenario()
def wide_basis_states(S):
    """registers of many qubits, operators of many terms"""
    n = S.choice("n", [4, 5, 6] + ([8] if S.thorough else []))
    ones = S.choice("ones", [(), (0,), (n - 1,), (1, 3), (0, 2, 3), tuple(range(n))])
    b = tuple(1 if q in ones else 0 for q in range(n))
    c = Circuit([C.X(q) for q in ones], n_qubits=n)
    supports = [(), (n - 1,), (0, 1), (1, 3), tuple(range(n)), (0, n - 1), (2,), (0,), (1, 2, 3), (3,)]
    cs = [S.real(f"c{i}", 0.5, 8) * (-1 if i % 3 == 1 else 1) for i in range(len(supports))]
    shots = S.choice("shots", [1, 3, 130])
    tasks = [EstimationTask(PauliSum([z(s, k) for s, k in zip(supports, cs)]), c, shots)] + [EstimationTask(z(s, k), c, 2) for s, k in list(zip(supports, cs))[3:6]]
    r = estimate_expectation_values_by_averaging(SymbolicSimulator(), tasks)
    S.check(len(r) == 4 and len(r[0].values) == len(cs), "one result per task, one value per term")
    for v, s, k in zip(r[0].values, supports, cs):
        S.close(v, k * sign(b, s), f"coefficient times eigenvalue on {s}", tol=1e-12)
    for ev, s, k in zip(r[1:], supports[3:], cs[3:]):
        S.close(total(S, list(ev.values)), k * sign(b, s), f"coefficient times eigenvalue on {s}", tol=1e-12)
    if n < 6:
        ex = calculate_exact_expectation_values(SymbolicSimulator(), [tasks[1], EstimationTask(PauliSum(), c, 0), tasks[2]])
        S.check(len(ex) == 3, "one exact value per task")
        for ev, s, k in zip([ex[0], ex[2]], supports[3:], cs[3:]):
            S.close(total(S, list(ev.values)), k * sign(b, s), "exact value", tol=1e-9)


@scenario()
def binding_every_kind(S):
    """tasks that are not measured are bound like the others; many tasks, each with its own map"""
    k = S.choice("tasks", [4, 6, 12])
    first = S.choice("first", list(range(5)))
    ops, tasks, vals = [], [], []
    for i in range(k):
        op = [z((i % 2,), 2.0), z((), 3.0), PauliSum(), PauliSum([z((), 1.0), z((), 2.0)]), PauliSum([z((0, 1), 1.5), z((), 2)])][(first + i) % 5]
        ops.append(op)
        tasks.append(EstimationTask(op, Circuit([C.RX(A)(0), C.RY(B - A)(1)], n_qubits=2), [0, 3, None, 1][i % 4]))
        vals.append(S.real(f"v{i}", -7, 7) if i in (1, k - 1) else 0.25 * (i + 1))
    maps = [{A: v} if i % 3 else {B: 0.5, A: v} for i, v in enumerate(vals)]
    r = evaluate_estimation_circuits(tasks, maps)
    S.check(len(r) == k, "one task per task")
    fresh = S.real("fb", -7, 7)
    for i, (t, u) in enumerate(zip(tasks, r)):
        S.check(u.operator is t.operator or u.operator == t.operator, "operator unchanged")
        S.check(u.number_of_shots == t.number_of_shots, "shots unchanged")
        S.check(set(u.circuit.free_symbols) == ({B} if i % 3 else set()), "free symbols left")
        S.check(u.circuit.n_qubits == 2 and [p.qubit_indices for p in u.circuit.operations] == [(0,), (1,)], "circuit keeps its shape")
        S.check(t.circuit.operations[0].gate.params == (A,), "original tasks unchanged")
        full = {A: vals[i], B: fresh if i % 3 else 0.5}
        for p, q in zip(t.circuit.operations, u.circuit.operations):
            S.close_mat(S.ev(q.gate.matrix, {B: fresh}), S.ev(p.gate.matrix, full), "each task's circuit is bound with its own map")
