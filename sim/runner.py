"""Runs a property's plans, each in its own forked process, and reports."""

import gc
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

from . import boot, core, seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("PTERA_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.environ.get("PTERA_REPLAYS", os.path.join(VERIF, "replays"))
KNOWN = os.path.join(VERIF, "known_findings.json")

RUN_CPU_LIMIT = 100  # seconds of CPU time after which a run (normally < 5 s) makes no progress


def load_property(pid):
    return importlib.import_module("sim.props." + pid.lower())


def known_for(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def execute(prop, plan, known=()):
    """One run, in this process. Returns a plain result dictionary."""
    ctx = core.Ctx(known)
    res = {"violation": None, "error": None}
    t0 = time.perf_counter()
    ids = seams.SimIds()
    try:
        with ids.installed():
            prop.run(plan, ctx)
    except core.PropertyViolated as v:
        res["violation"] = {"tag": v.tag, "message": v.message, "key": v.key}
        ctx.event("VIOLATION", v.tag, v.message)
    except core.HarnessError:
        res["error"] = traceback.format_exc()
    except Exception as e:
        # A failure inside the code under test where no fault was injected is a finding;
        # a failure of the harness is an error of the check.
        where = repo_frame(e)
        if not where and oracle_frame(e) and isinstance(e, (ValueError, TypeError, IndexError, AttributeError, KeyError)):
            # The oracle met a record it cannot even read.
            res["violation"] = {
                "tag": "malformed-record",
                "message": f"{type(e).__name__}: {e} while reading the record",
                "key": "malformed-record",
            }
            ctx.event("VIOLATION", "malformed-record", type(e).__name__)
        elif where:
            res["violation"] = {
                "tag": "unexpected-exception",
                "message": f"{type(e).__name__}: {e} at {where}",
                "key": "unexpected-exception",
            }
            ctx.event("VIOLATION", "unexpected-exception", type(e).__name__)
        else:
            res["error"] = traceback.format_exc()
    if ids.asked:
        ctx.count("object addresses asked for", ids.asked)
        ctx.fault("address reused", ids.reused)
    res.update(
        counters=ctx.counters,
        states=sorted(ctx.states),
        digest=ctx.digest(),
        events=ctx.num_events,
        sim_seconds=ctx.sim_seconds,
        nontrivial=ctx.nontrivial,
        known_seen=ctx.known_seen,
        wall=time.perf_counter() - t0,
    )
    if res["violation"] or res["error"]:
        res["log"] = ctx.log
    return res


def repo_frame(e):
    """The innermost frame of the package in the traceback of `e` or its causes."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        found = None
        tb = e.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(boot.REPO + os.sep):
                found = f"{os.path.relpath(fn, boot.REPO)}:{tb.tb_frame.f_code.co_name}"
            tb = tb.tb_next
        if found:
            return found
        e = e.__cause__ or e.__context__
    return None


def oracle_frame(e):
    tb = e.__traceback__
    while tb is not None:
        if os.path.basename(tb.tb_frame.f_code.co_filename) in ("refmodel.py", "observe.py"):
            return True
        tb = tb.tb_next
    return False


def child(prop, plan, known, path):
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU_LIMIT)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(2 * RUN_CPU_LIMIT)
    scratch = tempfile.mkdtemp(prefix="run", dir=os.environ["PTERA_SCRATCH"])
    os.chdir(scratch)
    try:
        res = execute(prop, plan, known)
    except BaseException:
        res = {"violation": None, "error": traceback.format_exc()}
    with open(path + ".part", "wb") as f:
        pickle.dump(res, f)
    os.rename(path + ".part", path)
    os._exit(0)


def run_one_forked(prop, plan, known, timeout=None):
    out = list(run_forked(prop, [(0, plan)], known, workers=1))
    return out[0][1]


def run_forked(prop, plans, known, workers=8, deadline=None, stop_on=None):
    """Yield (index, result) for every plan, in completion order."""
    scratch = os.environ["PTERA_SCRATCH"]
    pending = list(plans)[::-1]
    live = {}
    stop = False
    while pending or live:
        while pending and len(live) < workers and not stop:
            if deadline is not None and time.monotonic() > deadline:
                pending = []
                break
            idx, plan = pending.pop()
            path = os.path.join(scratch, f"res{idx}.{len(pending)}")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    child(prop, plan, known, path)
                finally:
                    os._exit(3)
            live[pid] = (idx, path)
        if not live:
            break
        pid, status = os.wait()
        if pid not in live:
            continue
        idx, path = live.pop(pid)
        if os.path.exists(path):
            with open(path, "rb") as f:
                res = pickle.load(f)
            os.unlink(path)
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGPROF:
            msg = f"the run did not finish within {RUN_CPU_LIMIT} s of CPU time"
            res = {
                "violation": {"tag": "no-progress", "message": msg, "key": "no-progress"},
                "error": None,
                "digest": "no-progress",
                "log": [],
            }
        else:
            res = {"violation": None, "error": f"run {idx} ended with status {status} and no result"}
        yield idx, res
        if stop_on is not None and stop_on(idx, res):
            stop = True
            pending = []


def minimise(prop, plan, result, known, budget_s=90, max_tries=400):
    """Greedy shrinking: keep any simpler plan that shows the same violation tag."""
    tag = result["violation"]["tag"]
    end = time.monotonic() + budget_s
    tries = 0
    best, best_res = plan, result
    if not hasattr(prop, "shrink") or tag == "no-progress":
        return best, best_res, 0
    improved = True
    while improved and time.monotonic() < end and tries < max_tries:
        improved = False
        batch = []
        gen = prop.shrink(best)
        while not improved and time.monotonic() < end and tries < max_tries:
            batch = []
            for cand in gen:
                batch.append(cand)
                if len(batch) == 8:
                    break
            if not batch:
                break
            tries += len(batch)
            results = dict(run_forked(prop, list(enumerate(batch)), known))
            for i, cand in enumerate(batch):
                r = results.get(i)
                if r and r.get("violation") and r["violation"]["tag"] == tag:
                    best, best_res = cand, r
                    improved = True
                    break
    return best, best_res, tries


def check(pid, tier, seed):
    t0 = time.monotonic()
    prop = load_property(pid)
    boot.load()
    if hasattr(prop, "setup"):
        prop.setup()
    gc.collect()
    gc.freeze()  # the collector need not touch (and copy) what the forked runs share
    warm = time.monotonic() - t0
    known = known_for(pid)
    n = prop.RUNS[tier]
    soft = {"quick": 420, "thorough": 3 * 3600}[tier]
    deadline = t0 + float(os.environ.get("PTERA_SOFT_DEADLINE", soft))
    workers = int(os.environ.get("PTERA_WORKERS", "8"))
    print(f"property={pid} tier={tier} seed={seed} runs={n} repo={boot.REPO}", flush=True)

    plans = []
    for i in range(n):
        plans.append((i, prop.gen(core.rng_for(seed, pid, i), i, tier)))
    results = {}
    bad = []

    def stop_on(i, r):
        if r.get("error"):
            bad.append(i)
        return bool(r.get("violation")) or len(bad) > 3

    for i, r in run_forked(prop, plans, known, workers, deadline, stop_on):
        results[i] = r
    plan_of = dict(plans)

    violations = sorted(i for i, r in results.items() if r.get("violation"))
    errors = sorted(i for i, r in results.items() if r.get("error"))

    # Determinism: re-execute a sample of plans in fresh processes; the event logs of the
    # two executions must be identical.
    redo = [i for i in sorted(results) if i not in violations and i not in errors]
    redo = redo[:: max(1, len(redo) // 12)][:12]
    nondet = []
    if not violations and not errors:
        for i, r in run_forked(prop, [(i, plan_of[i]) for i in redo], known, workers):
            if r.get("digest") != results[i].get("digest"):
                nondet.append(i)

    replay_path = None
    if violations:
        i = violations[0]
        plan, res, tries = minimise(prop, plan_of[i], results[i], known)
        os.makedirs(REPLAYS, exist_ok=True)
        h = hashlib.sha256(json.dumps(plan, sort_keys=True, default=str).encode()).hexdigest()[:10]
        replay_path = os.path.join(REPLAYS, f"{pid}-{seed}-{i}-{h}.json")
        replay = {
            "property": pid,
            "seed": seed,
            "index": i,
            "tier": tier,
            "plan": plan,
            "original_plan": plan_of[i],
            "violation": res["violation"],
            "digest": res["digest"],
            "event_log": res.get("log", []),
            "minimiser_runs": tries,
        }
        core.jdump(replay, replay_path)
        again = run_one_forked(prop, plan, known)
        same = again.get("digest") == res.get("digest") and bool(again.get("violation"))
        print(f"run {i}: {results[i]['violation']['tag']}: {results[i]['violation']['message']}")
        print(f"minimised: {res['violation']['message']}")
        print(f"replay reproduces exactly: {same}")

    wall = time.monotonic() - t0
    write_evidence(prop, pid, tier, seed, plans, results, redo, nondet, wall, warm, violations, n, workers)

    seen = {}
    for r in results.values():
        for k, m in (r.get("known_seen") or {}).items():
            seen.setdefault(k, m)
    for k in known:
        # A listed finding is announced whether or not this batch ran into it.
        print(f"KNOWN-FINDING: property={pid} {k['what']}" + ("" if k["key"] in seen else " (not met in this batch)"))

    if violations:
        print(f"VIOLATION property={pid} replay={replay_path}", flush=True)
        return 1
    if errors:
        print(f"HARNESS ERROR in run {errors[0]}:\n{results[errors[0]]['error']}", file=sys.stderr)
        return 2
    if nondet:
        print(f"HARNESS ERROR: runs {nondet} were not deterministic", file=sys.stderr)
        return 2
    if not results:
        print("HARNESS ERROR: no run finished", file=sys.stderr)
        return 2
    print(f"ok: {len(results)} runs in {wall:.1f} s, {len(redo)} re-executed identically", flush=True)
    return 0


def write_evidence(prop, pid, tier, seed, plans, results, redo, nondet, wall, warm, violations, n, workers):
    counters = {}
    states = set()
    digests = set()
    sim = 0.0
    events = 0
    for i in sorted(results):
        r = results[i]
        for k, v in (r.get("counters") or {}).items():
            counters[k] = counters.get(k, 0) + v
        states.update(r.get("states") or [])
        if r.get("nontrivial"):
            digests.add(r.get("digest"))
        sim += r.get("sim_seconds") or 0.0
        events += r.get("events") or 0
    plan_of = dict(plans)
    ids = sorted(results)
    samples = [{"run": i, "plan": plan_of[i]} for i in ids[: 2 if ids else 0]]
    rate = len(results) / max(wall, 1e-9) * 3600
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(digests),
        "rule": prop.RULE,
        "samples": samples,
        "exhaustive": False,
        "runs_planned": n,
        "runs_per_hour": round(rate),
        "seeds_per_hour": round(rate),
        "simulated_seconds": round(sim, 3),
        "events_logged": events,
        "faults_injected": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")},
        "probes": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe:")},
        "counters": {k: v for k, v in sorted(counters.items()) if not k.startswith(("fault:", "probe:"))},
        "distinct_states": len(states),
        "state_measure": getattr(prop, "STATE_MEASURE", "none"),
        "determinism": {"re_executed": len(redo), "different": len(nondet)},
        "real_components": prop.REAL,
        "stub_components": prop.STUB,
        "warm_up_s": round(warm, 2),
        "workers": workers,
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    core.jdump(ev, os.path.join(EVIDENCE, f"{pid}.json"))


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    pid = rep["property"]
    prop = load_property(pid)
    boot.load()
    if hasattr(prop, "setup"):
        prop.setup()
    gc.collect()
    gc.freeze()
    res = run_one_forked(prop, rep["plan"], known_for(pid))
    for line in res.get("log", []):
        print("  " + line[:300])
    if res.get("error"):
        print(res["error"], file=sys.stderr)
        return 2
    if res.get("violation"):
        v = res["violation"]
        print(f"{v['tag']}: {v['message']}")
        print(f"identical to the recorded execution: {res['digest'] == rep['digest']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("the property held in this replay")
    return 0
