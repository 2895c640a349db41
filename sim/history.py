"""Histories of one unsteady solver object: earlier runs that completed, failed or were
interrupted, then a clean run whose whole record is checked."""

import copy

from . import core
from . import harness as H
from . import observe as O
from . import refmodel as R
from . import seams
from . import spec as S


def gen(rng, model, ops=(0, 0, 0, 1, 1, 2), clocks=("tick", "jumpy")):
    out = []
    for _ in range(rng.choice(list(ops))):
        op = {
            "prescribed": rng.random() < 0.5,
            "streamlines": rng.random() < 0.3,
            "fault": H.gen_fault(rng, ["line", "line", "solve", "stderr"]) if rng.random() < 0.8 else None,
        }
        out.append(op)
    return {"model": model, "ops": out, "clock": rng.choice(list(clocks)), "log": rng.choice(["Warning", "Warning", "Info", "Critical"])}


def long_model(rng, prob, **opt):
    """Sometimes: a long simulation of a small model, in which effects of age accumulate."""
    if rng.random() >= prob:
        return None
    opt = dict(opt, multi_wing=rng.random() < 0.3, max_airplanes=1 + (rng.random() < 0.2))
    if rng.random() < 0.2:
        return S.gen_model(rng, steps=(60, 110), max_panels=2, **dict(opt, multi_wing=False, max_airplanes=1))
    return S.gen_model(rng, steps=(18, 45), max_panels=4, **opt)


def size_of(plan):
    """Executed lines, function entries and solves of one clean run, counted on a twin."""
    b = S.build(plan["model"])
    s = S.unsteady_solver(b)
    _, lines, calls, solves = H.measure(lambda: s.run(**S.run_kwargs(plan["model"])))
    return lines, calls, solves


class Snapshots:
    """Copies each step's record once it is two solves old; it must not change later."""

    def __init__(self, problem):
        self.problem = problem
        self.taken = {}

    def hook(self, n, a, k):
        # n-th solve: step n - 1 is being solved; steps up to n - 3 are settled.
        for j in range(max(0, n - 4), n - 2):
            if j not in self.taken and j < len(self.problem.steady_problems):
                self.taken[j] = step_record(self.problem, j)


def step_record(problem, j):
    d = {}
    sp = problem.steady_problems[j]
    for i, a in enumerate(sp.airplanes):
        q = f"step{j}.airplane{i}."
        for n, v in O.airplane_results(a).items():
            d[q + n] = v
        d[q + "panels"] = O.panel_geometry(a)
        d[q + "rings"] = O.ring_geometry(a)
        d[q + "circulation"] = O.arr([p.ring_vortex.strength if p.ring_vortex is not None else None for p in O.panels_of(a)])
        for w_i, w in enumerate(a.wings):
            d.update(O.wing_wake(w, f"{q}wing{w_i}."))
    for n, v in O.op_params(sp.operating_point).items():
        d[f"step{j}.op.{n}"] = v
    return d


def run(plan, ctx, after, check_ops=True):
    """Play the history; call after(built, solver, hist, prescribed, streamlines) for every
    run that completed."""
    model = plan["model"]
    b = S.build(model)
    solver = S.unsteady_solver(b)
    ctx.sim_seconds += S.sim_time(model) * (1 + len(plan["ops"]))
    size = size_of(plan) if any(o["fault"] for o in plan["ops"]) else None
    for n, op in enumerate(plan["ops"]):
        kw = {"prescribed_wake": op["prescribed"], "calculate_streamlines": op["streamlines"], "logging_level": plan["log"]}
        out = H.faulty(lambda: solver.run(**kw), op["fault"], size or (1, 1, 1), ctx, plan["clock"], n)
        ctx.event("op", n, kw, out.fired, type(out.error).__name__)
        ctx.state(op["fault"] and op["fault"]["type"], out.fired, n)
        if out.error is None:
            ctx.count("earlier runs completed")
            if out.fault is not None or check_ops:
                after(b, solver, R.History(b.problem), op["prescribed"], op["streamlines"])
        else:
            ctx.count("earlier runs failed")
            H.require_fault_reached(ctx, out, f"run {n}")
    kw = S.run_kwargs(model, logging_level=plan["log"])
    snaps = Snapshots(b.problem)
    sol = seams.solve_faults()
    sol.hook = snaps.hook
    clk = seams.SimClock(plan["clock"], 99)
    with seams.streams(), clk.installed(), sol.installed():
        solver.run(**kw)
    ctx.count("steps simulated", len(b.problem.steady_problems))
    for j, rec in sorted(snaps.taken.items()):
        d = O.diff(rec, step_record(b.problem, j), rtol=0.0)
        ctx.check(not d, "recorded-step-altered", lambda: f"the record of step {j} was altered after step {j + 2} began: {d}")
    ctx.count("steps re-read unchanged", len(snaps.taken))
    hist = R.History(b.problem)
    after(b, solver, hist, model["prescribed"], model["streamlines"])
    feed(ctx, solver, b)
    m = S.describe(model)
    ctx.state("model", m["airplanes"], m["wings"], m["steps"], m["prescribed"], S.is_static(model))
    return b, solver, hist


def feed(ctx, solver, b):
    O.feed(ctx, O.unsteady(solver), only=["circulation", "total", "final", "streamlines", "_list"])


def shrink(plan):
    for i in range(len(plan["ops"])):
        c = copy.deepcopy(plan)
        del c["ops"][i]
        yield c
    for m in S.shrink_model(plan["model"]):
        c = copy.deepcopy(plan)
        c["model"] = m
        yield c
    if plan["clock"] != "tick":
        c = copy.deepcopy(plan)
        c["clock"] = "tick"
        yield c


RULE = (
    "A case is a random model (1-3 airplanes, 1-3 wings, up to 110 steps, static or moving, prescribed or free "
    "wake) and a random history of 0-2 earlier runs of its solver object (completed, crashed at a "
    "random line, failing solve, failing progress stream), then a clean run; every completed run's "
    "whole record is checked. Non-trivial: {}; cases are distinct if their event logs differ."
)
REAL = ["geometry", "meshing", "movement", "problems", "unsteady solver", "numba kernels", "numpy.linalg.solve", "tqdm"]
STUB = ["clock (simulated)", "stderr/stdout and log streams (simulated)"]
STATE = "distinct (fault type, function struck, position in history) and (airplanes, wings, steps, wake model, static)"
