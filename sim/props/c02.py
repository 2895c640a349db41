"""C02: analyses running concurrently in one process do not affect one another."""

import copy

import numpy as np

from .. import core
from .. import harness as H
from .. import observe as O
from .. import sched, seams
from .. import spec as S

ID = "C02"
RUNS = {"quick": 320, "thorough": 9000}
RULE = (
    "A case is 2-4 caller threads, each with 1-2 jobs (build a random model, solve it with one of the "
    "three solvers, read all results; optionally on shared airfoils or a shared base airplane and "
    "operating point; airfoils cached or loaded anew for every cross section), and a random schedule that "
    "hands the processor from thread to thread at executed lines of the package - at random distances, or "
    "right before lines chosen uniformly over the distinct lines executed those using module state or those that follow the storing of an attribute; one thread may be killed at a random line. Every surviving job's results are "
    "compared with the same job alone in its own process. Non-trivial: at least two threads really "
    "alternated; cases are distinct if their event logs differ."
)
STATE_MEASURE = "distinct (function preempted, solver of that thread, solver of the thread that took over) and schedule digests"
REAL = ["geometry", "meshing", "movement", "problems", "all three solvers", "numba kernels", "numpy", "tqdm", "Python threads"]
STUB = ["thread scheduler (seeded, one thread at a time)", "clock, stderr/stdout and log streams (simulated)"]
ASSUMPTIONS = [
    "Threads are preempted between executed lines of the package; compiled kernels and library calls are atomic.",
]


def gen(rng, i, tier):
    nt = rng.choice([2, 2, 2, 3, 4])
    share = rng.choice(["nothing", "airfoils", "airfoils", "base", "base"])
    twins = rng.random() < 0.25  # all threads run the same model
    # Few airfoils, often loaded anew for each cross section: the threads then load the same
    # and different ones again and again.
    opt = {"move_prob": 0.6}
    if rng.random() < 0.6:
        opt["palette"] = rng.sample(rng.choice([S.DATABASE, range(len(S.AIRFOILS))]), rng.choice([2, 2, 3]))
    own = share != "airfoils" and rng.random() < 0.5
    base = S.gen_model(rng, steps=(2, 4), max_panels=10, op_move=0.6 if share == "base" else 0.25, **opt)
    tasks = []
    for _ in range(nt):
        jobs = []
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["unsteady", "unsteady", "ring", "horseshoe"])
            if share == "base":
                kind = "unsteady"
                m = copy.deepcopy(base)
                m["steps"] = rng.randint(2, 4)
                if rng.random() < 0.4:
                    m["op_move"] = None
                m["movement"] = S.gen_movement(rng, m["airplanes"], m["dt"], m["steps"], {"move_prob": 0.6})
            elif twins:
                m = copy.deepcopy(base)
            else:
                m = S.gen_model(rng, steps=(2, 4), max_panels=10, **opt)
            if share != "base":
                m["op"] = S.gen_op(rng)
            m["prescribed"] = rng.random() < 0.5
            m["streamlines"] = rng.random() < 0.4
            m["log"] = rng.choice(["Warning", "Warning", "Info", "Debug", "Critical"])
            if kind != "unsteady":
                m = {k: m[k] for k in ("airplanes", "op")}
            jobs.append({"kind": kind, "model": m})
        tasks.append({"jobs": jobs, "fault": None})
    plan = {"tasks": tasks, "share": share, "own": own, "switches": [], "targets": []}
    aimed = rng.random() < 0.55
    if rng.random() < 0.25:
        f = rng.choice(tasks)["fault"] = {"frac": round(rng.random(), 4), "kind": rng.choice(H.FAULT_KINDS)}
        if rng.random() < 0.5:
            f.update(type="site", occ=gen_occ(rng), shared=rng.random() < 0.5)
    if aimed:
        plan["targets"] = gen_targets(rng, nt, share)
    if not aimed or rng.random() < 0.2:
        plan["switches"] = gen_switches(rng, nt)
    elif rng.random() < 0.5:
        # who begins, and how far it comes before the next one does
        plan["switches"] = [[round(rng.random() * 0.98, 4), rng.randrange(nt)]]
    return plan


def gen_occ(rng):
    return round(rng.choice([0.0, rng.random(), rng.random(), 0.999]), 3)


def gen_targets(rng, nt, share):
    """Preemption right before chosen lines, uniformly over the distinct lines a thread
    executes or over those that use state of a module."""
    out = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        out.append(
            {
                "task": rng.randrange(nt),
                "frac": round(rng.random(), 6),
                "occ": gen_occ(rng),
                "shared": rng.choice([False, True, "stores", "stores"] if share == "base" else [False, False, True, True, "stores"]),
                "pick": rng.randrange(nt),
                # the other thread goes on to its end, or for so many lines
                "hold": None if rng.random() < 0.5 else int(2 ** rng.uniform(0, 13)),
            }
        )
    return out


def gen_switches(rng, nt):
    """[amount, pick]: amount < 1 is a fraction of the longest thread's lines."""
    style = rng.choice(["fine", "coarse", "late", "mixed", "lockstep"])
    out = []
    if style == "lockstep":
        for i in range(800):
            out.append([rng.choice([1, 1, 2, 3, 5]), i])
        return out
    if style == "late":
        for t in range(nt):
            out.append([round(rng.random() * 0.98, 4), t])
    n = {"fine": 500, "coarse": 40, "late": 400, "mixed": 250}[style]
    for _ in range(n):
        if style == "coarse" or (style == "mixed" and rng.random() < 0.3):
            out.append([round(rng.uniform(0.002, 0.08), 4), rng.randrange(nt)])
        else:
            out.append([rng.choice([1, 1, 2, 3, 5, 8, 13, 30, 80]), rng.randrange(nt)])
    return out


def job_fn(job, cache, shared):
    b = S.build(job["model"], cache=cache, airplanes=shared and shared[0], op=shared and shared[1])
    solver = S.make_solver(job["kind"], b)
    kw = S.run_kwargs(job["model"]) if job["kind"] == "unsteady" else {"logging_level": job["model"].get("log", "Warning")}
    solver.run(**kw)
    obs = O.results(solver, job["kind"])
    for i, a in enumerate(b.airplanes):
        for k, v in O.airplane_params(a).items():
            obs[f"params{i}.{k}"] = v
    return obs


def task_fn(task, cache, shared, sink):
    for job in task["jobs"]:
        sink.append(job_fn(job, cache, shared))
    return len(sink)


def own(plan, cache):
    return {S.NO_CACHE: True} if plan.get("own") else cache


def make_shared(plan):
    if plan["share"] != "base":
        return None
    m = plan["tasks"][0]["jobs"][0]["model"]
    cache = own(plan, {})
    return [S.make_airplane(a, cache) for a in m["airplanes"]], S.make_op(m["op"])


def make_common(plan):
    """The airfoils that exist before the threads start."""
    common = {}
    if plan["share"] == "airfoils":
        for t in plan["tasks"]:
            for j in t["jobs"]:
                for a in j["model"]["airplanes"]:
                    for w in a["wings"]:
                        for s in w["sections"]:
                            S.make_airfoil(s["airfoil"], common)
    return common


class Lent:
    """Watches the objects that threads share: at which executed lines are they neither as
    they were at the beginning nor as they are in the end?"""

    def __init__(self, things):
        seen, todo = {}, list(things)
        while todo:
            o = todo.pop()
            if isinstance(o, (list, tuple)):
                todo.extend(o)
            elif isinstance(o, dict):
                todo.extend(o.values())
            elif type(o).__module__.startswith("pterasoftware") and id(o) not in seen:
                seen[id(o)] = o
                todo.extend(v for k, v in vars(o).items() if k != "panels")
        self.objects = list(seen.values())
        self.count = {}
        self.log = []
        self.first = self.state()

    def state(self):
        out = []
        for o in self.objects:
            for v in list(vars(o).values()):
                out.append(id(v))
                if type(v) is np.ndarray and v.size and v.dtype != object:
                    out.append(v.item(v.size // 2))
                elif type(v) is float:
                    out.append(v)
        return hash(tuple(out))

    def __call__(self, frame):
        k = (frame.f_code.co_filename, frame.f_lineno)
        n = self.count[k] = self.count.get(k, 0) + 1
        s = self.state()
        if s != self.first and len(self.log) < 100000:
            self.log.append((s, k, n))

    def sites(self):
        last = self.state()
        out = {}
        for s, k, n in self.log:
            if s != last:
                out.setdefault(k, []).append(n)
        return sorted(out.items())


def run(plan, ctx):
    tasks = plan["tasks"]

    def alone(task):
        sink = []
        shared = make_shared(plan)
        common = make_common(plan)
        lent = None
        if plan["targets"] and plan["share"] != "nothing":
            lent = Lent([shared, list(common.values())])
        _, lines, _, _ = H.measure(lambda: task_fn(task, own(plan, common), shared, sink), lent)
        return sink, lines, lent.sites() if lent else []

    refs = [H.solo(lambda t=t: alone(t)) for t in tasks]
    longest = max(r[1] for r in refs)
    shared = make_shared(plan)
    common = make_common(plan)
    sinks = [[] for _ in tasks]
    threads = []
    faults = {}
    for n, t in enumerate(tasks):
        cache = own(plan, common if plan["share"] != "nothing" else {})
        threads.append(sched.Task(f"thread {n}", lambda t=t, c=cache, n=n: task_fn(t, c, shared, sinks[n])))
        if t["fault"]:
            faults[n] = core.make_fault(t["fault"]["kind"])
            if t["fault"].get("type") == "site":
                threads[n].kill_site = refs[n][1].pick(t["fault"]["frac"], t["fault"]["occ"], t["fault"]["shared"])
            else:
                threads[n].kill_at = 1 + int(t["fault"]["frac"] * refs[n][1])
            threads[n].kill_with = faults[n]
    for g in plan.get("targets", ()):
        n = g["task"] % len(tasks)
        lent = refs[n][2]
        if lent and g["shared"]:  # a moment at which a shared object is not as it should be
            site, occs = lent[int(g["frac"] * len(lent))]
            occ = occs[int(g["occ"] * len(occs))]
            ctx.count("preemptions while a shared object is altered")
        else:
            site, occ = refs[n][1].pick(g["frac"], g["occ"], g["shared"])
        threads[n].stops.setdefault(site, {}).setdefault(occ, (g["pick"], g["hold"]))
    switches = [[a if a >= 1 else max(1, int(a * longest)), p] for a, p in plan["switches"]]
    sch = sched.Scheduler(threads, switches)
    with seams.streams(), seams.SimClock("tick").installed():
        sch.run()
    ctx.nontrivial = len(set(sch.interleave)) > 1
    ctx.count("preemptions", len(sch.trace_log))
    kinds = [t["jobs"][0]["kind"] for t in tasks]
    for (name, func, line), to in zip(sch.trace_log, sch.interleave[1:]):
        ctx.state(func, kinds[int(name.split()[1])], kinds[to])
    ctx.event("interleaving", sch.interleave[:2000], sch.trace_log[:2000])
    for n, t in enumerate(tasks):
        err = threads[n].error
        what = f"thread {n} of {len(tasks)} (sharing {plan['share']}, {len(sch.trace_log)} preemptions)"
        if err is not None:
            if n in faults and core.in_chain(err, faults[n]):
                ctx.fault("thread killed/" + t["fault"]["kind"])
            else:
                ctx.check(False, "thread-failed", f"{what} failed with {type(err).__name__}: {err}, though it succeeds alone")
        for k, obs in enumerate(sinks[n]):
            d = O.diff(refs[n][0][k], obs)
            ctx.check(
                not d,
                "interference",
                lambda: f"{what}: job {k} ({t['jobs'][k]['kind']}) differs from the same job alone: {d}",
            )
            O.feed(ctx, obs, only=["circulation", "total", "final"])
            ctx.count("jobs compared")
            ctx.sim_seconds += S.sim_time(t["jobs"][k]["model"])
        ctx.check(err is not None or len(sinks[n]) == len(t["jobs"]), "lost-job", f"{what}: did {len(sinks[n])} of {len(t['jobs'])} jobs")


def shrink(plan):
    if len(plan["tasks"]) > 2:
        for i in range(len(plan["tasks"])):
            c = copy.deepcopy(plan)
            del c["tasks"][i]
            yield c
    for i, t in enumerate(plan["tasks"]):
        if t["fault"]:
            c = copy.deepcopy(plan)
            c["tasks"][i]["fault"] = None
            yield c
        if len(t["jobs"]) > 1:
            for j in range(len(t["jobs"])):
                c = copy.deepcopy(plan)
                del c["tasks"][i]["jobs"][j]
                yield c
    for i in range(len(plan.get("targets", ()))):
        c = copy.deepcopy(plan)
        del c["targets"][i]
        yield c
    n = len(plan["switches"])
    size = n // 2
    while size >= 1:
        for lo in range(0, n, size):
            c = copy.deepcopy(plan)
            del c["switches"][lo : lo + size]
            yield c
        if size <= 8 and n > 64:
            break
        size //= 2
    for i, t in enumerate(plan["tasks"]):
        for j, job in enumerate(t["jobs"]):
            if plan["share"] == "base":
                continue
            for m in S.shrink_model(job["model"]):
                c = copy.deepcopy(plan)
                c["tasks"][i]["jobs"][j]["model"] = m
                yield c
