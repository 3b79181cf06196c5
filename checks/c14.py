"""C14: runners validate requests, deliver enough shots and count their work."""
import itertools
import json

import numpy as np

from orquestra.quantum import circuits as C
from orquestra.quantum.api import BaseCircuitRunner
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import Circuit, MultiPhaseOperation, ResetOperation, circuit_from_dict
from orquestra.quantum.distributions import MeasurementOutcomeDistribution
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.operators import PauliTerm
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator
from orquestra.quantum.runners.trackers import MeasurementTrackingBackend

from symx import core, sparse, tokens
from symx.api import Caught, scenario

setup_symbolic = sparse.register

BOUNDS = ("runner kinds: stub of the base class (exact and surplus shots, failing in the k-th run), simulator with every operation "
          "native, simulators with two native/non-native predicates, tracker over each of them and over a tracker; histories of 1-2 "
          "(thorough 3) calls out of run, batch with one count, batch with a list/tuple of counts (right and wrong length), distribution "
          "with and without a count, wavefunction, exact expectation; every integer sample count in [-2, 3] (single calls: any "
          "non-positive count down to -10^20); batches of 0-3 circuits; circuits: empty, empty with idle qubits, one gate, entangled with "
          "idle qubits, symbolic angle, alternating native and non-native operations; batches of up to 14 (25) circuits, many of them equal, with "
          "an invalid count anywhere; registers of up to 6 (7) qubits; up to 10002 shots; counts given as numpy integers and booleans")
OUTSIDE = ("tracking circuits with operations that have no serialised form (MultiPhaseOperation); non-integer sample counts; runners overriding the public methods; longer histories and batches; sampling: first draw "
           "arbitrary, later draws repeat it")


def pool(S):
    th = S.real("th", -7, 7)
    return {
        "empty": Circuit([]),
        "idle": Circuit([], n_qubits=2),
        "x": Circuit([C.X(0)]),
        "ent": Circuit([C.H(0), C.CNOT(0, 2)], n_qubits=4),
        "rx": Circuit([C.RX(th)(0)], n_qubits=2),
        "xx": Circuit([C.X(0), C.Z(1), C.X(2)], n_qubits=4),
        "gates": Circuit([C.X(0), C.H(1), C.CNOT(0, 1), C.X(1), C.RX(th)(0)]),
        "mixed": Circuit([C.X(0), C.H(1), MultiPhaseOperation((0.5, 0.25, -1.0, 0.0)), C.X(1), MultiPhaseOperation((0.5, 1.0, 0.0, 0.25)), C.X(0), C.X(0)]),
    }


class Stub(BaseCircuitRunner):
    def __init__(self, extra=0, fail=None):
        super().__init__()
        self.calls = []
        self.extra = extra
        self.fail = fail

    def _run_and_measure(self, circuit, n_samples):
        k = len(self.calls)
        self.calls.append((circuit, n_samples))
        if self.fail == k:
            raise RuntimeError("device broke")
        w = circuit.n_qubits
        bits = [tuple((k + s >> q) & 1 for q in range(w)) for s in range(int(n_samples) + self.extra)]
        return Measurements(bits)


class BatchStub(Stub):
    """dedicated batch logic; counts its own work as one job"""

    def _run_batch_and_measure(self, batch, samples_per_circuit):
        out = [self._run_and_measure(c, n) for c, n in zip(batch, samples_per_circuit)]
        self._n_circuits_executed += len(batch)
        self._n_jobs_executed += 1
        return out


class Sim(BaseWavefunctionSimulator):
    """records the circuits handed to the native backend"""

    def __init__(self, native=None):
        super().__init__()
        self.calls = []
        self.native = native

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.calls.append((circuit, None))
        for op in circuit.operations:
            initial_state = op.apply(initial_state)
        return initial_state

    def is_natively_supported(self, operation):
        return super().is_natively_supported(operation) if self.native is None else self.native(operation)


def not_x(op):
    return not (hasattr(op, "gate") and op.gate.name == "X")


def gate(op):
    return hasattr(op, "gate")


def anything(op):
    return True


class Model:
    """what the counters must show"""

    def __init__(self, kind, native=None, extra=0):
        self.kind, self.native, self.extra = kind, native, extra
        self.circuits = self.jobs = 0

    def ran(self, circuit):
        if self.kind == "sim":
            segs = [k for k, _ in itertools.groupby(circuit.operations, self.native)]
            self.jobs += len(segs)
            self.circuits += sum(bool(k) for k in segs)
        else:
            self.jobs += 1
            self.circuits += 1


KINDS = ["stub", "stub+2", "symbolic", "sim", "sim-x"]


def make(kind):
    if kind == "stub":
        return Stub(), Model("base")
    if kind == "stub+2":
        return Stub(extra=2), Model("base", extra=2)
    if kind == "symbolic":
        return SymbolicSimulator(), Model("sim", anything)
    if kind == "sim":
        return Sim(), Model("sim", gate)
    return Sim(not_x), Model("sim", not_x)


def counters(r):
    return r.n_circuits_executed, r.n_jobs_executed


def check_measurements(S, m, circuit, n, what):
    S.check(isinstance(m, Measurements), f"{what}: type of the result")
    S.check(S.all(len(m.bitstrings) >= n), f"{what}: at least the requested number of shots")
    S.check(all(isinstance(b, tuple) and len(b) == circuit.n_qubits and all(x in (0, 1) for x in b) for b in m.bitstrings),
            f"{what}: bitstrings as long as the register")


def check_distribution(S, d, circuit, what):
    S.check(isinstance(d, MeasurementOutcomeDistribution), f"{what}: type of the result")
    S.check(all(len(k) == circuit.n_qubits for k in d.distribution_dict), f"{what}: outcomes as long as the register")


def expected_stub_bits(k, w, n):
    return [tuple((k + s >> q) & 1 for q in range(w)) for s in range(n)]


CALLS = ["run", "batch1", "batchn", "dist", "exact"]


class Call:
    """one call chosen by the solver: name, circuits, counts, whether it must be rejected"""

    def __init__(self, S, tag, kind, names, circuits, lo=-2, hi=3):
        self.name = S.choice(tag + "call", CALLS if kind not in ("stub", "stub+2") else CALLS[:4] + ["none"])
        self.names = []
        if self.name in ("batch1", "batchn"):
            self.names = list(S.choice(tag + "batch", names["batches"]))
        else:
            self.names = [S.choice(tag + "circuit", names["single"])]
        self.circuits = [circuits[n] for n in self.names]
        self.tag = tag
        if self.name in ("run", "dist", "batch1"):
            self.counts = S.int(tag + "n", lo, hi)
            self.invalid = bool(self.counts <= 0)
            self.each = [self.counts] * len(self.circuits)
        elif self.name == "batchn":
            delta = S.choice(tag + "len", [0, 1, -1])
            if delta == -1 and not self.circuits:
                delta = 2
            k = len(self.circuits) + delta
            # at most two counts are arbitrary
            self.each = [S.int(f"{tag}n{i}", lo, hi) if i < 2 and delta == 0 else 1 + i for i in range(k)]
            self.counts = S.choice(tag + "form", [list, tuple])(self.each)
            self.invalid = bool(delta)
            for n in self.each:
                if not self.invalid and bool(n <= 0):
                    self.invalid = True
        else:
            self.counts, self.each, self.invalid = None, [], self.name == "none"

    def __call__(self, runner):
        if self.name == "run":
            return runner.run_and_measure(self.circuits[0], self.counts)
        if self.name in ("batch1", "batchn"):
            return runner.run_batch_and_measure(self.circuits, self.counts)
        if self.name == "dist":
            return runner.get_measurement_outcome_distribution(self.circuits[0], self.counts)
        return runner.get_measurement_outcome_distribution(self.circuits[0], None)


def check_result(S, call, res):
    if call.name in ("batch1", "batchn"):
        S.check(isinstance(res, list) and len(res) == len(call.circuits), "one result per circuit")
        for m, c, n in zip(res, call.circuits, call.each):
            check_measurements(S, m, c, n, "batch")
    elif call.name == "run":
        check_measurements(S, res, call.circuits[0], call.counts, "run")
    else:
        check_distribution(S, res, call.circuits[0], "distribution")


def step(S, runner, model, call):
    """make the call on a runner that is not a tracker"""
    before = counters(runner)
    executed = len(runner.calls) if hasattr(runner, "calls") else None
    res = S.catch(call, runner)
    now = counters(runner)
    S.check(now[0] >= before[0] and now[1] >= before[1], "counters never decrease")
    if call.invalid:
        S.check(isinstance(res, Caught) and res.isa(ValueError), "invalid request rejected with ValueError")
        S.check(now == before, "rejected call leaves the counters")
        if executed is not None:
            S.check(len(runner.calls) == executed, "nothing is executed by a rejected call")
        return res
    if isinstance(res, Caught):
        S.fail(f"valid request fails: {res!r}")
        return res
    for c in call.circuits:
        model.ran(c)
    S.check(now == (model.circuits, model.jobs), "counters grow by the circuits and jobs run", info=(now, model.circuits, model.jobs))
    check_result(S, call, res)
    if isinstance(runner, Stub):
        new = runner.calls[executed:]
        S.check(len(new) == len(call.circuits) and all(c is d for (c, _), d in zip(new, call.circuits)), "the circuits are run once each, in order")
        S.check(S.all(True, *[S.eq(n, m) for (_, n), m in zip(new, call.each)]), "with their own sample counts")
        for j, (m, c) in enumerate(zip(res if isinstance(res, list) else [res], call.circuits)):
            if isinstance(m, Measurements):
                S.check(m.bitstrings == expected_stub_bits(executed + j, c.n_qubits, len(m.bitstrings)), "results are in the order of the circuits")
    if isinstance(runner, Sim):
        new = runner.calls[executed:]
        segs = [list(g) for c in call.circuits for k, g in itertools.groupby(c.operations, model.native) if k]
        S.check([list(c.operations) for c, _ in new] == segs, "each native segment is executed once")
    return res


ONE = {"single": ["empty", "idle", "x", "ent", "rx", "mixed"],
       "batches": [(), ("empty",), ("idle", "x"), ("x", "rx"), ("mixed", "idle", "x"), ("ent", "empty")]}
TRACKED = {"single": ["empty", "idle", "x", "ent", "rx", "gates"],
           "batches": [(), ("empty",), ("idle", "x"), ("x", "rx"), ("gates", "idle", "x"), ("ent", "empty")]}
FEW = {"single": ["idle", "mixed"], "batches": [(), ("x", "idle")]}


@scenario(weight=2)
def single_calls(S):
    S.rng_free = 1
    kind = S.choice("kind", KINDS)
    runner, model = make(kind)
    step(S, runner, model, Call(S, "a", kind, ONE, pool(S)))


@scenario(weight=3)
def histories(S):
    S.rng_free = 0
    kind = S.choice("kind", ["stub", "symbolic", "sim-x"])
    runner, model = make(kind)
    circuits = pool(S)
    for i in range(3 if S.thorough and kind == "stub" else 2):
        names = FEW if S.thorough else {"single": ["mixed"], "batches": [("x", "mixed")]}
        step(S, runner, model, Call(S, f"{i}", kind, names, circuits, lo=0, hi=1 if i else 2))


@scenario()
def any_invalid_count(S):
    """arbitrarily negative counts, counts of any size, at every position"""
    kind = S.choice("kind", KINDS)
    runner, model = make(kind)
    c = pool(S)["mixed"]
    n = S.int("n", -10**20, 0)
    k = S.choice("k", [0, 1, 2, 3])
    pos = S.choice("pos", list(range(k))) if k else None
    good = S.int("good", 1, 10**20)
    counts = [n if i == pos else good for i in range(k)]
    before = counters(runner)
    calls = [lambda: runner.run_and_measure(c, n), lambda: runner.run_batch_and_measure([c] * k, n),
             lambda: runner.run_batch_and_measure([c] * (k + 1), [good] * k), lambda: runner.run_batch_and_measure([c] * k, [good] * (k + 1)),
             lambda: runner.get_measurement_outcome_distribution(c, n)]
    if k:
        calls += [lambda: runner.run_batch_and_measure([c] * k, counts), lambda: runner.run_batch_and_measure((c,) * k, tuple(counts))]
    for f in calls:
        S.raises("rejected with ValueError", (ValueError,), f)
        S.check(counters(runner) == before, "counters unchanged")
    if hasattr(runner, "calls"):
        S.check(runner.calls == [], "nothing is executed")


@scenario()
def failures(S):
    """a run that breaks is not counted; the runs before it are"""
    k = S.choice("k", [1, 2, 3])
    fail = S.choice("fail", list(range(k)))
    r = Stub(fail=fail)
    c = Circuit([C.X(0)])
    n = S.int("n", 1, 3)
    S.raises("the device's error reaches the caller", (RuntimeError,), r.run_batch_and_measure, [c] * k, n)
    S.check(counters(r) == (fail, fail), "only completed runs are counted")
    m = r.run_and_measure(c, n)
    check_measurements(S, m, c, n, "after a failure")
    S.check(counters(r) == (fail + 1, fail + 1), "counters go on")
    # unbound symbols are refused before anything runs
    s = Sim(not_x)
    S.raises("unbound symbols", (ValueError,), s.run_and_measure, Circuit([C.X(0), C.RX(S.symbol("a"))(0)]), n)
    S.check(counters(s) == (0, 0) and s.calls == [], "nothing is executed")


@scenario()
def dedicated_batches(S):
    """a runner with its own batch implementation"""
    r = BatchStub(extra=S.choice("extra", [0, 1]))
    names = S.choice("batch", [(), ("x",), ("idle", "x")])
    p = pool(S)
    batch = [p[n] for n in names]
    delta = S.choice("delta", [0, 1])
    counts = [S.int(f"n{i}", -1, 2) for i in range(len(batch) + delta)]
    form = S.choice("one", [False, True])
    arg = S.int("n", -1, 2) if form else counts
    bad = bool(arg <= 0) if form else bool(delta) or any([bool(n <= 0) for n in counts])
    res = S.catch(r.run_batch_and_measure, batch, arg)
    if bad:
        S.check(isinstance(res, Caught) and res.isa(ValueError), "invalid batch rejected")
        S.check(counters(r) == (0, 0) and r.calls == [], "nothing executed, nothing counted")
        return
    S.check(not isinstance(res, Caught) and len(res) == len(batch), "one result per circuit")
    S.check(counters(r) == (len(batch), 1), "counters")
    for m, c, n in zip(res, batch, [arg] * len(batch) if form else counts):
        check_measurements(S, m, c, n, "batch")


@scenario()
def wavefunctions_count(S):
    """wavefunctions and exact expectation values count their segments, from any initial state"""
    kind = S.choice("kind", ["symbolic", "sim", "sim-x"])
    r, model = make(kind)
    p = pool(S)
    name = S.choice("circuit", ["empty", "idle", "x", "rx", "mixed"])
    c = p[name]
    for what in (S.choice("first", ["wf", "wf0", "exp"]), S.choice("second", ["wf", "run", "bad"])):
        if what == "wf":
            r.get_wavefunction(c)
        elif what == "wf0":
            st = S.unit("psi", 2**c.n_qubits) if c.n_qubits < 2 else [0, 0, 1, 0]
            import numpy as np

            r.get_wavefunction(c, np.array(st, dtype=complex) if not S.symbolic else S.array(st))
        elif what == "exp":
            r.get_exact_expectation_values(c, PauliTerm("I0", S.real("k")))
        elif what == "run":
            S.rng_free = 0
            check_measurements(S, r.run_and_measure(c, 2), c, 2, "run")
        else:
            S.raises("non-positive", (ValueError,), r.run_and_measure, c, S.int("n", -3, 0))
            continue
        model.ran(c)
        S.check(counters(r) == (model.circuits, model.jobs), "counters grow by the segments run", info=(what, counters(r), model.circuits, model.jobs))


# ---- tracker
class Spy:
    """passes everything on, remembers what came back"""

    def __init__(self, inner):
        self.inner = inner
        self.last = None

    def __getattr__(self, name):
        return getattr(self.inner, name)

    def run_and_measure(self, *a):
        self.last = None
        self.last = self.inner.run_and_measure(*a)
        return self.last

    def run_batch_and_measure(self, *a):
        self.last = None
        self.last = self.inner.run_batch_and_measure(*a)
        return self.last

    def get_measurement_outcome_distribution(self, *a):
        self.last = None
        self.last = self.inner.get_measurement_outcome_distribution(*a)
        return self.last


def records(S, path):
    with open(path) as f:
        d = json.loads(f.read())
    return (tokens.untoken(d) if S.symbolic else d)["raw-data"]


def tally(bits):
    out = {}
    for b in bits:
        k = "".join(map(str, b))
        out[k] = out.get(k, 0) + 1
    return out


def check_records(S, path, call, res, record_bitstrings):
    raw = records(S, path)
    k = len(call.circuits)
    S.check(isinstance(raw, list) and len(raw) >= k, "one record per circuit")
    results = res if isinstance(res, list) else [res]
    for rec, c, m in zip(raw[len(raw) - k:], call.circuits, results):
        S.check(circuit_from_dict(rec["circuit"]) == c, "recorded circuit")
        if isinstance(m, Measurements):
            S.check(rec["counts"] == tally(m.bitstrings), "recorded counts match the measurements")
            S.check(rec["number_of_shots"] == len(m.bitstrings), "recorded number of shots")
            if record_bitstrings:
                S.check([tuple(b) for b in rec["bitstrings"]] == list(m.bitstrings), "recorded bitstrings")
        else:
            S.check(rec["distribution"] == repr(m), "recorded distribution")
            if call.counts is None:
                S.check(rec["number_of_shots"] is None, "exact distribution has no shots")
            else:
                S.check(S.eq(rec["number_of_shots"], call.counts), "recorded number of shots")


def tracker_step(S, spy, tracker, path, call, record_bitstrings):
    before = counters(tracker)
    inner = counters(spy)
    bits = None
    res = S.catch(call, tracker)
    now = counters(tracker)
    S.check(now[0] >= before[0] and now[1] >= before[1], "tracker: counters never decrease")
    if call.invalid:
        S.check(isinstance(res, Caught) and res.isa(ValueError), "tracker: invalid request rejected with ValueError")
        S.check(now == before and counters(spy) == inner, "tracker: rejected call leaves the counters")
        return
    if isinstance(res, Caught):
        S.fail(f"tracker: valid request fails: {res!r}")
        return
    check_result(S, call, res)
    got = spy.last
    if isinstance(res, list):
        S.check(len(res) == len(got) and all(a is b or a.bitstrings == b.bitstrings for a, b in zip(res, got)), "tracker: passes the batch through")
    elif isinstance(res, Measurements):
        S.check(res is got or (got is not None and res.bitstrings == got.bitstrings), "tracker: passes the measurements through")
    else:
        S.check(res is got or got.distribution_dict == res.distribution_dict, "tracker: passes the distribution through")
    S.check(now[0] == before[0] + len(call.circuits), "tracker: counts the circuits")
    check_records(S, path, call, res, record_bitstrings)


@scenario(weight=2)
def tracker(S):
    S.rng_free = 0
    if S.symbolic:
        core.CTX.unsigned_text = True
    kind = S.choice("kind", ["stub+2", "symbolic"] if not S.thorough else KINDS)
    spy = Spy(make(kind)[0])
    rec = S.flag("bitstrings")
    p = S.tmp("raw.json")
    t = MeasurementTrackingBackend(spy, p, rec)
    if S.flag("nested"):
        outer = S.tmp("outer.json")
        spy = Spy(t)
        t, p = MeasurementTrackingBackend(spy, outer, record_bitstrings=rec), outer
    one = TRACKED if S.thorough else {"single": ["empty", "x", "gates"], "batches": [(), ("idle", "x"), ("gates", "x", "empty")]}
    tracker_step(S, spy, t, p, Call(S, "a", kind, one, pool(S), lo=-1, hi=2), rec)


@scenario(weight=2)
def tracker_histories(S):
    S.rng_free = 0
    if S.symbolic:
        core.CTX.unsigned_text = True
    kind = S.choice("kind", ["stub", "sim-x"])
    spy = Spy(make(kind)[0])
    p = S.tmp("raw.json")
    t = MeasurementTrackingBackend(spy, p, S.flag("bitstrings"))
    circuits = pool(S)
    for i in range(2):
        names = {"single": ["gates" if kind == "stub" else "xx"], "batches": [("x", "xx")]}
        tracker_step(S, spy, t, p, Call(S, f"{i}", kind, names, circuits, lo=0, hi=2 - i), t.record_bitstrings)


@scenario()
def tracker_circuits(S):
    """arbitrary angles and symbols reach the record unchanged"""
    if S.symbolic:
        core.CTX.unsigned_text = True
    p = S.tmp("raw.json")
    stub = Stub(extra=S.choice("extra", [0, 1]))
    t = MeasurementTrackingBackend(stub, p, True)
    a = S.real("a", -7, 7)
    c = Circuit([C.RX(a)(0), C.RZ(S.symbol("s"))(2), C.CNOT(2, 0), C.U3(a, 0.5, S.symbol("s") * 2).controlled(1)(0, 1)], n_qubits=S.choice("n", [3, 5]))
    n = S.int("n", 1, 2)
    m = t.run_and_measure(c, n)
    rec = records(S, p)[-1]
    S.check(m.bitstrings == expected_stub_bits(0, c.n_qubits, len(m.bitstrings)), "measurements passed through")
    back = circuit_from_dict(rec["circuit"])
    S.check(back.n_qubits == c.n_qubits and len(back.operations) == 4, "recorded circuit")
    S.check(back == c, "recorded circuit equals the circuit run")
    S.check(rec["counts"] == tally(m.bitstrings) and rec["number_of_shots"] == len(m.bitstrings), "recorded shots")
    S.check([tuple(b) for b in rec["bitstrings"]] == m.bitstrings, "recorded bitstrings")


# ---- long batches, wide registers, many shots
class Batch:
    def __init__(self, circuits, counts, each, name="batchn"):
        self.circuits, self.counts, self.each, self.name, self.invalid = circuits, counts, each, name, False

    def __call__(self, runner):
        return runner.run_batch_and_measure(self.circuits, self.counts)


class One(Batch):
    def __init__(self, circuit, n):
        super().__init__([circuit], n, [n], "run")

    def __call__(self, runner):
        return runner.run_and_measure(self.circuits[0], self.counts)


def long_list(k):
    """circuits of which neighbours and distant ones are equal, some the same object"""
    x, ent = Circuit([C.X(0), C.Z(1)], n_qubits=3), Circuit([C.X(0), C.CNOT(0, 2)], n_qubits=4)
    out = []
    for i in range(k):
        out.append([x, Circuit([C.X(0), C.Z(1)], n_qubits=3), ent, Circuit([C.X(i % 2), C.X(2)], n_qubits=3 + i % 3), Circuit([], n_qubits=2)][(i * i // 2) % 5])
    return out


@scenario()
def long_batches(S):
    S.rng_free = 0
    kind = S.choice("kind", KINDS)
    k = S.choice("k", [4, 7, 12] + ([25] if S.thorough else []))
    runner, model = make(kind)
    cs = long_list(k)
    one = S.flag("one count")
    bad = S.choice("bad", [None, 0, 2, 3, k - 1])
    if one:
        n = S.int("n", 1, 3)
        each, counts = [n] * k, n
    else:
        each = [S.int(f"n{i}", 1, 3) if i in (1, k - 1) else 1 + i % 3 for i in range(k)]
        counts = list(each)
    if bad is not None:
        before = counters(runner)
        if one:
            wrong = S.int("w", -10**20, 0)
        else:
            wrong = counts[:bad] + [S.int("w", -10**20, 0)] + counts[bad + 1:]
        S.raises("invalid request rejected with ValueError", (ValueError,), runner.run_batch_and_measure, cs, wrong)
        S.check(counters(runner) == before and (not hasattr(runner, "calls") or not runner.calls), "nothing executed by a rejected batch")
    step(S, runner, model, Batch(cs, counts, each))


@scenario()
def long_tracked_batches(S):
    S.rng_free = 0
    if S.symbolic:
        core.CTX.unsigned_text = True
    spy = Spy(make(S.choice("kind", ["stub+2", "stub", "symbolic"]))[0])
    rec = S.flag("bitstrings")
    k = S.choice("k", [2, 3, 9, 14])
    p = S.tmp("raw.json")
    t = MeasurementTrackingBackend(spy, p, rec)
    cs = long_list(k) if k > 3 else [Circuit([C.X(0)]), Circuit([C.X(0)]), Circuit([C.X(0)], n_qubits=2)][:k]
    each = [S.int(f"n{i}", 1, 3) if i in (1, k - 1) else 1 + i % 3 for i in range(k)]
    tracker_step(S, spy, t, p, Batch(cs, list(each), each), rec)
    n = S.int("n", 1, 2)
    tracker_step(S, spy, t, p, One(cs[1], n), rec)
    tracker_step(S, spy, t, p, One(cs[1], 2), rec)
    tracker_step(S, spy, t, p, Batch(cs, n, [n] * k), rec)


@scenario()
def wide_registers(S):
    """bitstrings are as long as the register, whatever is measured"""
    S.rng_free = 1
    n = S.choice("n", [5, 6, 7] if S.thorough else [5, 6])
    first = S.choice("first", [None, 0, n - 1, n // 2])
    ops = [] if first is None else [C.X(first)]
    sup = S.choice("sup", [None, 0, n - 1])
    if sup is not None:
        ops.append(C.H(sup))
    c = Circuit(ops, n_qubits=n)
    sim = S.choice("sim", ["symbolic", "sim-x"])
    runner, model = make(sim)
    m = runner.run_and_measure(c, 2)
    check_measurements(S, m, c, 2, "run")
    model.ran(c)
    S.check(counters(runner) == (model.circuits, model.jobs), "counters grow by the segments run")
    for b in m.bitstrings:
        S.check(all(b[q] == (q == first) or q == sup for q in range(n)), "idle qubits are measured as 0, flipped ones as 1", info=b)
    d = runner.get_measurement_outcome_distribution(c, None)
    check_distribution(S, d, c, "exact distribution")
    S.check(counters(runner)[0] >= model.circuits, "counters never decrease")


@scenario()
def many_shots(S):
    """shots in the thousands, single runs and batches"""
    S.rng_free = 0
    kind = S.choice("kind", KINDS)
    runner, model = make(kind)
    n = S.choice("n", [100, 129, 1000, 1025, 4097, 10001])
    c, e = Circuit([C.X(1)], n_qubits=2), Circuit([], n_qubits=1)
    step(S, runner, model, One(c, n))
    step(S, runner, model, Batch([c, e, c], [n, 7, n + 1], [n, 7, n + 1]))
    step(S, runner, model, Batch([c, e], n, [n, n], "batch1"))


INTEGRALS = [np.int64, np.int32, np.uint8, bool]


@scenario()
def numpy_counts(S):
    """counts of shots that came out of numpy arrays"""
    kind = S.choice("kind", KINDS + ["tracker"])
    t = S.choice("type", INTEGRALS)
    path = S.tmp("raw.json")
    spy = None
    if kind == "tracker":
        spy = Stub()
        runner, model = MeasurementTrackingBackend(spy, path, record_bitstrings=False), Model("base")
    else:
        runner, model = make(kind)
    S.rng_free = 0
    c, d = (pool(S)[k] for k in ("gates", "idle"))
    n = S.choice("n", [-1, 0, 1, 3])
    if t is np.uint8 and n < 0 or t is bool and n not in (0, 1):
        return
    n, how = t(n), S.choice("how", ["run", "batch", "list", "array", "distribution"])
    m = t(1)
    call = {"run": lambda: [runner.run_and_measure(c, n)], "batch": lambda: runner.run_batch_and_measure([c, d], n),
            "list": lambda: runner.run_batch_and_measure([c, d], [m, n]), "array": lambda: runner.run_batch_and_measure([c, d], np.array([m, n], dtype=t)),
            "distribution": lambda: [runner.get_measurement_outcome_distribution(c, n)]}[how]
    before = counters(runner)
    r = S.catch(call)
    if n <= 0:
        S.check(isinstance(r, Caught) and r.isa(ValueError), "rejected with ValueError", info=r)
        S.check(counters(runner) == before and (not hasattr(runner, "calls") or runner.calls == []), "nothing runs, nothing is counted")
        return
    if isinstance(r, Caught):
        S.fail(f"valid request fails: {r!r}")
        return
    circuits = [c, d] if how in ("batch", "list", "array") else [c]
    for x in circuits:
        model.ran(x)
    jobs = model.jobs if spy is None else counters(runner)[1]
    S.check(counters(runner) == (model.circuits, jobs), "counters grow by the circuits and jobs run")
    S.check(len(r) == len(circuits), "one result per circuit")
    for x, y, k in zip(r, circuits, [n] if len(circuits) == 1 else [n, n] if how == "batch" else [m, n]):
        if how == "distribution":
            check_distribution(S, x, y, how)
        else:
            check_measurements(S, x, y, int(k), how)
    if spy is not None:
        S.check([int(k) for _, k in spy.calls] == [int(k) for k in ([n] if len(circuits) == 1 else [n, n] if how == "batch" else [m, n])], "counts asked of the runner")
        with open(path) as f:
            S.check(len(json.load(f)["raw-data"]) == len(circuits), "one record per circuit")
