"""Explores scenarios over a pool of processes, replays candidates on untouched
code, writes evidence and prints the verdict."""
import argparse
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


# --------------------------------------------------------------------------
def _clear_caches(cacheables):
    for f in cacheables:
        try:
            f.cache_clear()
        except Exception:
            pass


def find_cacheables(mods):
    out = []
    for m in mods:
        for v in list(m.__dict__.values()):
            if hasattr(v, "cache_clear"):
                out.append(v)
            elif isinstance(v, type) and getattr(v, "__module__", "") == m.__name__:
                for w in v.__dict__.values():
                    w = getattr(w, "fget", w)
                    w = getattr(w, "__func__", w)
                    if hasattr(w, "cache_clear"):
                        out.append(w)
    return out


class Tracker:
    """Names of repository functions executed symbolically."""

    def __init__(self, root):
        self.root = root
        self.seen = set()
        mon = sys.monitoring
        self.tool = 4
        mon.use_tool_id(self.tool, "symx")
        mon.register_callback(self.tool, mon.events.PY_START, self._start)
        mon.set_events(self.tool, mon.events.PY_START)

    def _start(self, code, off):
        fn = code.co_filename
        if fn.startswith(self.root):
            n = code.co_qualname
            if "<module>" not in n:
                self.seen.add(fn[len(self.root):].lstrip("/") + ":" + n.replace("<locals>.", ""))
        return sys.monitoring.DISABLE

    def take(self):
        s, self.seen = self.seen, set()
        return s


def run_path(sc, prefix, tier, cacheables, plimit):
    """One path. Returns (result dict, alternatives)."""
    from . import api, core

    dens = {}  # denominators of angles, only what this path needs
    for attempt in range(10):
        ctx = core.Ctx(prefix, dens=dens, time_limit=plimit)
        core.set_ctx(ctx)
        core.FP_DIV[0] = core.FP_FLOAT[0] = False
        _clear_caches(cacheables)
        s = api.S(tier)
        api.CUR = s
        res = dict(kind="ok", err=None)
        cands = []
        try:
            sc.fn(s)
        except core.NeedDen as e:
            dens[e.name] = e.den
            s.close_tmp()
            continue
        except core.Infeasible:
            res["kind"] = "infeasible"
        except (core.Unsupported, core.PathLimit, core.Diverged) as e:
            res["kind"] = "inconclusive"
            tb = traceback.extract_tb(e.__traceback__)
            loc = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "/symx/" not in f.filename), "")
            res["err"] = f"{type(e).__name__}: {e} @ {loc}"
        except core.Ctl as e:
            res["kind"] = "inconclusive"
            res["err"] = repr(e)
        except RecursionError as e:
            res["kind"] = "inconclusive"
            res["err"] = "RecursionError"
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"{f.filename.split('/')[-1]}:{f.lineno} {f.name}" for f in tb][-6:]
            res["kind"] = "exception"
            res["err"] = f"{type(e).__name__}: {str(e)[:300]} @ {' < '.join(reversed(loc))}"
        finally:
            s.close_tmp()
        break
    else:
        res = dict(kind="inconclusive", err="angle refinement did not converge")
    if res["kind"] in ("exception", "inconclusive"):
        try:
            env = s.find_point(core.TRUE)
        except BaseException as e:  # noqa
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            env = None
        if env is not None:
            cands.append(s.pack(res["kind"] + ": " + str(res["err"])[:200], None, env, res["kind"]))
        elif res["kind"] == "exception":
            # feasibility of the path is not established
            r, _, _ = core.solve(core.TRUE, sliced=False, timeout=3000)
            if r == "unsat":
                res["kind"] = "infeasible"
    wit = None
    if res["kind"] == "ok" and not s.candidates:
        h = int(hashlib.md5(repr((sc.name, ctx.trace)).encode()).hexdigest()[:8], 16)
        res["wit_rank"] = h
        if len(ctx.trace) == 0 or h % 7 == 0:
            try:
                env = s.find_point(core.TRUE, tries=60)
                if env is not None:
                    wit = s.pack("witness", None, env, "witness")
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
    if res["kind"] == "ok" and wit is None and ctx.pc and not ctx.inputs == {}:
        pass
    res.update(obligations=s.obligations, discharged=s.discharged, inconclusive=s.inconclusive,
               queries=ctx.nq, qtime=ctx.qtime, branches=len(ctx.trace), candidates=s.candidates + cands,
               witness=wit, unknown_feas=ctx.unknown_feas, notes=ctx.notes[:3], stages=s.stages)
    return res, ctx.alts, ctx


def worker(conn, modname, tier, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        from . import shims

        mod = importlib.import_module(modname)
        pre = getattr(mod, "setup_symbolic", None)
        if pre:
            pre()
        shims.instrument()
        tracker = Tracker(os.path.join(REPO, "src", "orquestra", "quantum"))
        cacheables = find_cacheables(shims.repo_modules())
        from . import api

        scs = {s.name: s for s in api.REG}
        conn.send(("ready", None))
    except BaseException:
        conn.send(("dead", traceback.format_exc()))
        return
    gc.freeze()
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        name, stack, slice_s, plimit = msg
        sc = scs[name]
        t0 = time.time()
        results = []
        stack = list(stack)
        while stack and time.time() - t0 < slice_s and len(results) < 400:
            prefix = stack.pop()
            try:
                res, alts, ctx = run_path(sc, prefix, tier, cacheables, plimit)
            except BaseException:
                res, alts = dict(kind="inconclusive", err="engine: " + traceback.format_exc()[-600:], obligations=0,
                                 discharged=0, inconclusive=[], queries=0, qtime=0, branches=0, candidates=[],
                                 witness=None, unknown_feas=0, notes=[], stages={}), []
            results.append(res)
            stack.extend(alts)
        conn.send(("done", (name, results, stack, tracker.take(), time.time() - t0)))


def replayer(conn, modname, tier):
    """Concrete execution on the untouched repository code."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        import random as pr

        import numpy as np

        from . import api, shims

        mod = importlib.import_module(modname)
        shims.import_all()
        scs = {s.name: s for s in api.REG}
        cacheables = find_cacheables(shims.repo_modules())
        conn.send(("ready", None))
    except BaseException:
        conn.send(("dead", traceback.format_exc()))
        return
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        tag, name, w = msg
        conn.send((tag, replay_one(scs[name], w, tier, cacheables)))


def replay_one(sc, w, tier, cacheables=()):
    import random as pr

    import numpy as np

    from . import api, core, shims

    s = api.CS(w, tier)
    api.CUR = s
    old = (np.random.default_rng, np.random.choice, np.random.multinomial)
    oldp = (pr.choice, pr.choices, pr.sample)
    R = shims.RNG
    _clear_caches(cacheables)

    def alarm(*a):
        raise TimeoutError("replay timeout")

    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(60)
    exc = None
    try:
        np.random.default_rng = R
        np.random.choice = lambda *a, **k: R().choice(*a, **k)
        np.random.multinomial = lambda *a, **k: R().multinomial(*a, **k)
        pr.choice, pr.choices, pr.sample = shims.PYRANDOM.choice, shims.PYRANDOM.choices, shims.PYRANDOM.sample
        sc.fn(s)
    except TimeoutError as e:
        exc = None
        s.diverged = "timeout"
    except core.Infeasible as e:
        s.diverged = str(e) or "outside"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb][-4:]
        exc = f"{type(e).__name__}: {str(e)[:300]} @ {' < '.join(reversed(loc))}"
    finally:
        signal.alarm(0)
        np.random.default_rng, np.random.choice, np.random.multinomial = old
        pr.choice, pr.choices, pr.sample = oldp
        s.close_tmp()
    fails = list(s.failures)
    if exc:
        fails.append(dict(label="exception", key=None, info=exc))
    return dict(failures=fails, checks=s.nchecks, diverged=s.diverged)


# --------------------------------------------------------------------------
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


class Proc:
    def __init__(self, ctx, target, args):
        self.conn, child = ctx.Pipe()
        self.p = ctx.Process(target=target, args=(child,) + args, daemon=True)
        self.p.start()
        child.close()
        self.ready = False
        self.busy = None
        self.t0 = 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay", help="re-run a recorded counterexample on the untouched code")
    ap.add_argument("--only", help="substring of scenario names (development)")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--cap", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    modname = f"checks.{prop.lower()}"
    if a.replay:
        return do_replay(prop, modname, a.replay)
    t_start = time.time()
    cap = a.cap or (float(os.environ.get("VERIF_CAP", "0")) or (300.0 if a.tier == "quick" else 840.0))
    known = [k for k in load_known() if k["property"] == prop and not k.get("fixed")]
    known_keys = {k["key"]: k for k in known}
    try:
        mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop} harness import failed")
        return 2
    from . import api

    scs = [s for s in api.REG if a.tier in s.tiers and (not a.only or a.only in s.name)]
    mpctx = mp.get_context("fork")
    nw = max(1, a.jobs)
    workers = [Proc(mpctx, worker, (modname, a.tier, 1)) for _ in range(nw)]
    reps = [Proc(mpctx, replayer, (modname, a.tier)) for _ in range(2)]

    st = {s.name: dict(pend=[[]], running=0, paths=0, infeasible=0, inconc=0, exc=0, obl=0, dis=0, time=0.0, cand=0,
                       confirmed=0, spurious=0, stop=False, inc_msgs={}, wits=0, cut=False, maxwit=6)
          for s in scs}
    scmap = {s.name: s for s in scs}
    tot = dict(queries=0, qtime=0.0, branches=0, unknown_feas=0, witness_ok=0, witness_fail=0, replays=0)
    stages = {}
    funcs = set()
    replay_q = []
    samples = []
    violations = []
    known_hit = {}
    tags = {}
    tagn = 0
    seen_labels = {}
    order = [s.name for s in scs]
    plimit = 40.0 if a.tier == "quick" else 120.0

    def next_task():
        # scenario with pending prefixes, fewest running, in order
        best = None
        for n in order:
            d = st[n]
            if d["stop"] or not d["pend"]:
                continue
            sc = scmap[n]
            if sc.budget and d["time"] > sc.budget * (1 if a.tier == "quick" else 6):
                if not d["running"]:
                    d["cut"] = True
                    d["stop"] = True
                continue
            if best is None or d["running"] / scmap[n].weight < st[best]["running"] / scmap[best].weight:
                best = n
        return best

    dead = None
    while True:
        now = time.time()
        if now - t_start > cap:
            for n in order:
                if st[n]["pend"] and not st[n]["stop"]:
                    st[n]["cut"] = True
                    st[n]["stop"] = True
        for w in workers:
            if w.ready and w.busy is None:
                n = next_task()
                if n is None:
                    break
                d = st[n]
                k = max(1, len(d["pend"]) // (2 * nw)) if len(d["pend"]) > 1 else 1
                k = min(k, 50)
                stack = d["pend"][-k:]
                del d["pend"][-k:]
                d["running"] += 1
                w.busy = n
                w.t0 = now
                sl = 0.6 if now - t_start < 5 else 2.0
                w.conn.send((n, stack, sl, plimit))
        for r in reps:
            if r.ready and r.busy is None and replay_q:
                # candidates first
                replay_q.sort(key=lambda x: x[2]["verdict"] == "witness")
                tag, n, w_ = replay_q.pop(0)
                tags[tag] = (n, w_)
                r.busy = tag
                r.t0 = now
                r.conn.send((tag, n, w_))
        active = [p for p in workers + reps if p.busy is not None or not p.ready]
        if not active:
            if not replay_q and next_task() is None:
                break
        conns = {p.conn: p for p in active}
        if not conns:
            continue
        for c in mpc.wait(list(conns), timeout=1.0):
            p = conns[c]
            try:
                msg = c.recv()
            except (EOFError, OSError):
                # the process died (memory guard, crash)
                if p in reps:
                    if p.busy is not None:
                        p.busy = None
                    i = reps.index(p)
                    reps[i] = Proc(mpctx, replayer, (modname, a.tier))
                else:
                    if p.busy is not None:
                        d = st[p.busy]
                        d["running"] -= 1
                        d["inconc"] += 1
                        d["inc_msgs"]["worker died"] = d["inc_msgs"].get("worker died", 0) + 1
                    i = workers.index(p)
                    workers[i] = Proc(mpctx, worker, (modname, a.tier, 1))
                continue
            if msg[0] == "ready":
                p.ready = True
                continue
            if msg[0] == "dead":
                dead = msg[1]
                break
            if p in reps:
                tag, out = msg
                p.busy = None
                tot["replays"] += 1
                n, w_ = tags.pop(tag)
                handle_replay(n, w_, out, st, violations, known_keys, known_hit, tot, prop, a, samples)
                continue
            _, (n, results, left, fs, el) = msg
            p.busy = None
            d = st[n]
            d["running"] -= 1
            d["pend"].extend(left)
            d["time"] += el
            funcs |= fs
            for r in results:
                d["paths"] += 1
                tot["queries"] += r["queries"]
                tot["qtime"] += r["qtime"]
                tot["branches"] += r["branches"]
                tot["unknown_feas"] += r["unknown_feas"]
                for k_, v_ in r["stages"].items():
                    stages[k_] = stages.get(k_, 0) + v_
                d["obl"] += r["obligations"]
                d["dis"] += r["discharged"]
                if r["kind"] == "infeasible":
                    d["infeasible"] += 1
                elif r["kind"] == "inconclusive":
                    d["inconc"] += 1
                    d["inc_msgs"][r["err"]] = d["inc_msgs"].get(r["err"], 0) + 1
                elif r["kind"] == "exception":
                    d["exc"] += 1
                for lab, why in r["inconclusive"]:
                    m = f"{lab}: {why}"
                    d["inc_msgs"][m] = d["inc_msgs"].get(m, 0) + 1
                for cnd in r["candidates"]:
                    lk = (n, cnd["label"], cnd["key"])
                    seen_labels[lk] = seen_labels.get(lk, 0) + 1
                    lim = 3 if cnd["key"] in known_keys else 8
                    if cnd["verdict"] == "inconclusive":
                        lim = 25
                    # beyond the first few, candidates whose choices differ from all earlier ones
                    fresh = False
                    if cnd["key"] not in known_keys and cnd["verdict"] != "inconclusive":
                        for cv in cnd["choices"].items():
                            ck = lk + (repr(cv),)
                            seen_labels[ck] = seen_labels.get(ck, 0) + 1
                            fresh = fresh or seen_labels[ck] <= 2
                        fresh = fresh and d["cand"] < 150
                    if seen_labels[lk] <= lim or fresh:
                        d["cand"] += 1
                        tagn += 1
                        replay_q.append((tagn, n, cnd))
                w_ = r.get("witness")
                if w_ and d["wits"] < d["maxwit"]:
                    d["wits"] += 1
                    tagn += 1
                    replay_q.append((tagn, n, w_))
            sc = scmap[n]
            if sc.paths and d["paths"] > sc.paths * (1 if a.tier == "quick" else 20):
                d["cut"] = bool(d["pend"]) or d["cut"]
                d["stop"] = True
        if dead:
            break
        for p in workers:
            if p.busy is not None and now - p.t0 > plimit * 3 + 30:
                p.p.kill()
        if len(violations) >= 4 or (violations and time.time() - t_start > 20):
            break
    for p in workers + reps:
        try:
            p.p.kill()
        except Exception:
            pass
    if dead:
        print(dead)
        print(f"ERROR property={prop} engine could not start")
        return 2
    wall = time.time() - t_start
    return report(prop, a, st, scs, tot, stages, funcs, violations, known, known_hit, samples, wall, mod)


def handle_replay(n, w, out, st, violations, known_keys, known_hit, tot, prop, a, samples):
    d = st[n]
    fails = out["failures"]
    if w["verdict"] == "witness":
        if not fails:
            tot["witness_ok"] += 1
            if len(samples) < 12:
                samples.append(dict(scenario=n, inputs=w["values"], choices=w["choices"], checks=out["checks"]))
            return
        tot["witness_fail"] += 1
    if not fails:
        d["spurious"] += 1
        m = f"not reproduced: {w['label']}"
        if w["verdict"] not in ("witness", "inconclusive"):
            d["inc_msgs"][m] = d["inc_msgs"].get(m, 0) + 1
            if a.v:
                print("  spurious", n, w["label"], w["values"], w["choices"], out.get("diverged"))
        return
    new = [f for f in fails if f["key"] not in known_keys]
    for f in fails:
        if f["key"] in known_keys:
            known_hit.setdefault(f["key"], (n, w, f))
    if new:
        d["confirmed"] += 1
        violations.append((n, w, new))


def report(prop, a, st, scs, tot, stages, funcs, violations, known, known_hit, samples, wall, mod):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    obl = sum(d["obl"] for d in st.values())
    dis = sum(d["dis"] for d in st.values())
    paths = sum(d["paths"] - d["infeasible"] for d in st.values())
    inc = {}
    for n, d in st.items():
        for m, k in d["inc_msgs"].items():
            inc[f"{n}: {m}"] = k
    cut = [n for n, d in st.items() if d["cut"]]
    vac = [n for n, d in st.items() if d["obl"] == 0]
    ev = {
        "property_id": prop,
        "tier": a.tier,
        "level": "model_checking",
        "technique": "symbolic execution of the real functions, obligations discharged by z3",
        "states": max(paths, 0),
        "transitions": tot["branches"],
        "traces_validated_against_impl": tot["witness_ok"],
        "samples": samples[:12],
        "functions_encoded": sorted(funcs),
        "bounds": getattr(mod, "BOUNDS", ""),
        "outside": getattr(mod, "OUTSIDE", ""),
        "obligations": obl,
        "obligations_discharged": dis,
        "queries": tot["queries"],
        "solver_seconds": round(tot["qtime"], 2),
        "decided_by": stages,
        "unknown_feasibility_branches": tot["unknown_feas"],
        "replays": tot["replays"],
        "inconclusive": inc,
        "cut_by_budget": cut,
        "vacuous_scenarios": vac,
        "scenarios": {n: {k: (round(v, 2) if isinstance(v, float) else v) for k, v in d.items()
                          if k in ("paths", "infeasible", "inconc", "exc", "obl", "dis", "time", "cand", "confirmed", "spurious", "cut")}
                      for n, d in st.items()},
        "known_findings_seen": sorted(known_hit),
        "violations": len(violations),
        "wall_s": round(wall, 2),
        "seed": int(os.environ.get("VERIF_SEED", "1")),
    }
    ev["wall_seconds"] = ev["wall_s"]
    extra = getattr(mod, "EVIDENCE", None)
    if extra:
        ev.update(extra)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    print(f"{prop} tier={a.tier} paths={paths} obligations={obl} discharged={dis} queries={tot['queries']} "
          f"solver={tot['qtime']:.1f}s witnesses={tot['witness_ok']} wall={wall:.1f}s")
    if a.v:
        for n, d in st.items():
            print(f"   {n}: paths={d['paths']} obl={d['obl']} dis={d['dis']} inc={d['inconc']} exc={d['exc']} inf={d['infeasible']} t={d['time']:.1f} cut={d['cut']}")
    if inc:
        for m, k in list(inc.items())[: (40 if a.v else 6)]:
            print(f"  inconclusive x{k}: {m[:400]}")
    if cut:
        print("  not fully explored within the budget: " + ", ".join(cut))
    if vac:
        print("  WARNING no obligation reached in: " + ", ".join(vac))
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['key']}: {k['what']}")
    rc = 0
    done = set()
    for n, w, fails in violations:
        lab = fails[0]["label"]
        if (n, lab) in done:
            continue
        done.add((n, lab))
        rp = write_replay(prop, n, w, fails, a.tier)
        print(f"  {n}: {lab} {fails[0].get('info') or ''}"[:700])
        print(f"    inputs {json.dumps(w['values'])[:400]} choices {json.dumps(w['choices'])[:400]}")
        print(f"VIOLATION property={prop} replay={rp}")
        rc = 1
    if rc == 0 and obl == 0:
        print(f"ERROR property={prop}: no obligation was reached")
        rc = 2
    ev["exit"] = rc
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    return rc


def write_replay(prop, n, w, fails, tier):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, scenario=n, tier=tier, witness={k: w[k] for k in ("values", "choices", "rng", "label", "key", "verdict")},
                failures=fails)
    h = hashlib.md5(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}_{n}_{h}.json")
    with open(p, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return p


def do_replay(prop, modname, path):
    from . import api

    with open(path) as f:
        b = json.load(f)
    importlib.import_module(modname)
    sc = {s.name: s for s in api.REG}[b["scenario"]]
    out = replay_one(sc, b["witness"], b["tier"])
    print(json.dumps(out, indent=1))
    if out["failures"]:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
