"""C06: the simulated past does not depend on the simulated future."""

import copy

import numpy as np

from .. import core
from .. import harness as H
from .. import observe as O
from .. import sched
from .. import seams
from .. import spec as S

ID = "C06"
RUNS = {"quick": 700, "thorough": 25000}
RULE = (
    "A case is a random model and a pair of histories that agree up to a random step K and differ "
    "after it: more steps, edited operating points, another waveform or another geometry from step "
    "K on, or a crash at a random line. The records of the steps before K are compared. "
    "Non-trivial: K >= 1 and the later parts really differ; distinct by event log."
)
STATE_MEASURE = "distinct (kind of future, shared steps, all steps, wake model)"
REAL = ["geometry", "meshing", "movement", "problems", "unsteady solver", "numba kernels", "numpy.linalg.solve", "tqdm"]
STUB = ["clock (simulated)", "stderr/stdout and log streams (simulated)"]
FUTURES = ["extend", "extend", "flow", "waveform", "geometry", "crash"]
RTOL = 1e-7


class Branching:
    """A waveform that changes after a given phase."""

    def __init__(self, phase, delta):
        self.phase, self.delta = phase, delta

    def __call__(self, x):
        x = np.asarray(x, float)
        return np.where(x < self.phase, np.sin(x), np.sin(x) + self.delta * (x - self.phase))


def gen(rng, i, tier):
    future = rng.choice(FUTURES)
    model = S.gen_model(rng, steps=(3, 7 if tier == "quick" else 10), max_panels=14, op_move=0.4, static_prob=0.2, only_final=0.0)
    model["only_final"] = False
    n = model["steps"]
    plan = {"model": model, "future": future, "K": rng.randint(1, n - 1), "clock": rng.choice(["tick", "jumpy"])}
    if future == "extend":
        plan["K"] = n
        plan["more"] = rng.randint(1, 5)
    elif future == "flow":
        plan["flow"] = {"velocity": S.r3(rng.uniform(4, 25)), "alpha": S.r3(rng.uniform(-5, 10)), "density": S.r3(rng.uniform(0.5, 2)), "nu": 1e-3}
    elif future == "waveform":
        plan["delta"] = S.r3(rng.uniform(0.2, 2.0))
        plan["amp"] = S.r3(rng.uniform(3, 12))
        plan["what"] = rng.choice(["sweep", "pitch", "heave"])
        plan["period"] = S.r3(model["dt"] * rng.choice([3, 5, 11]))
    elif future == "geometry":
        plan["scale"] = S.r3(rng.uniform(0.7, 1.4))
        plan["twist"] = S.r3(rng.uniform(-6, 6))
    else:
        plan["fault"] = H.gen_fault(rng, ["line"])
    return plan


def solve(b, model, clock, streams_on=False):
    s = S.unsteady_solver(b)
    with seams.streams(), seams.SimClock(clock, 1).installed():
        s.run(**S.run_kwargs(model, calculate_streamlines=streams_on))
    return s


def set_waveform(model, plan, delta, reg):
    """Put the branching waveform on the first wing's last section."""
    m = copy.deepcopy(model)
    name = f"branch{delta}"
    wing = m["airplanes"][0]["wings"][0]
    phase = 2 * np.pi / plan["period"] * (plan["K"] - 0.5) * m["dt"]
    S.CUSTOM[name] = Branching(phase, delta)
    reg.append(name)
    m["movement"][0]["wings"][0]["sections"][-1][plan["what"]] = {"a": plan["amp"], "p": plan["period"], "s": "custom", "f": name}
    assert wing["normal"] != [0.0, 0.0, 1.0]
    return m


def prefix(obs, k):
    return {n: v for n, v in obs.items() if n.startswith("step") and int(n[4 : n.index(".")]) < k}


def run(plan, ctx):
    model, K = plan["model"], plan["K"]
    reg = []
    try:
        _run(plan, ctx, model, K, reg)
    finally:
        for n in reg:
            S.CUSTOM.pop(n, None)


def _run(plan, ctx, model, K, reg):
    f = plan["future"]
    base = model
    if f == "waveform":
        base = set_waveform(model, plan, 0.0, reg)
    b = S.build(base)
    s = solve(b, base, plan["clock"])
    a_obs = O.unsteady(s)
    n2 = base["steps"]
    upto = K
    if f == "crash":
        bt = S.build(base)
        st = S.unsteady_solver(bt)
        _, lines, calls, solves = H.measure(lambda: st.run(**S.run_kwargs(base, calculate_streamlines=False)))
        b2 = S.build(base)
        s2 = S.unsteady_solver(b2)
        sol = seams.solve_faults()
        done = [0]
        sol.hook = lambda n, a, k: done.__setitem__(0, n)
        with sol.installed():
            out = H.faulty(lambda: s2.run(**S.run_kwargs(base, calculate_streamlines=False)), plan["fault"], (lines, calls, solves), ctx, plan["clock"])
            # H.faulty wraps the same function; this outer hook still sees every call.
        H.require_fault_reached(ctx, out, "run")
        upto = max(0, done[0] - 1) if out.error is not None else base["steps"]
    else:
        m2 = copy.deepcopy(base)
        if f == "extend":
            m2["steps"] = base["steps"] + plan["more"]
            n2 = m2["steps"]
            upto = base["steps"]
        elif f == "waveform":
            m2 = set_waveform(model, plan, plan["delta"], reg)
        b2 = S.build(m2)
        if f == "flow":
            for k in range(K, base["steps"]):
                op = b2.problem.steady_problems[k].operating_point
                for n, v in plan["flow"].items():
                    setattr(op, n, v)
        elif f == "geometry":
            m3 = copy.deepcopy(base)
            for a in m3["airplanes"]:
                for w in a["wings"]:
                    for sec in w["sections"]:
                        sec["chord"] = S.r3(sec["chord"] * plan["scale"])
                        sec["twist"] = S.r3(sec["twist"] + plan["twist"])
            b3 = S.build(m3)
            for k in range(K, base["steps"]):
                b2.problem.steady_problems[k].airplanes = b3.problem.steady_problems[k].airplanes
        s2 = solve(b2, m2, plan["clock"])
        late = O.diff({k: v for k, v in O.unsteady(s2).items() if "circulation" in k}, {k: v for k, v in a_obs.items() if "circulation" in k}, rtol=1e-6)
        ctx.nontrivial = bool(late)
        if late:
            ctx.count("futures that really differ")
    b_obs = O.unsteady(s2)
    ctx.count("steps compared", upto)
    ctx.sim_seconds += (base["steps"] + n2) * base["dt"]
    ctx.state(f, upto, n2, base["prescribed"])
    if f == "crash":
        ctx.nontrivial = upto >= 1
    pa, pb = prefix(a_obs, upto), prefix(b_obs, upto)
    O.feed(ctx, pb, only=["circulation", "total"])
    d = O.diff(pa, pb, rtol=RTOL)
    ctx.check(not d, "past-depends-on-future", lambda: f"changing the future ({f}, from step {upto}) changed the record of the past: {d}")


def shrink(plan):
    for m in S.shrink_model(plan["model"]):
        if plan["future"] == "waveform" and len(m["airplanes"][0]["wings"][0]["sections"]) < 2:
            continue
        if plan["K"] < m["steps"] or plan["future"] == "extend":
            c = copy.deepcopy(plan)
            c["model"] = m
            yield c
    if plan.get("more", 1) > 1:
        c = copy.deepcopy(plan)
        c["more"] = 1
        yield c
