"""C08: a trim condition that is returned is within bounds and actually trims."""

import contextlib
import copy
import math

import numpy as np
import scipy.optimize

from .. import boot, core
from .. import harness as H
from .. import seams
from .. import spec as S

ID = "C08"
RUNS = {"quick": 460, "thorough": 14000}
RULE = (
    "A case is a random airplane (steady) or airplane movement (unsteady), random bounds, cut-off and call "
    "budget, a random state of the global random number generator, and 1-3 searches on the same objects or on two similar airplanes in turn, "
    "some with a failing solve, a crash at a random line or a failing log stream. The flow is the real "
    "solver's or a scripted one (hidden optimum, ripples, optimum outside the bounds, unreachable). Every "
    "solve and every evaluated condition is recorded; the returned condition is re-solved on fresh objects. "
    "Non-trivial: more than one solve; cases are distinct if their event logs differ."
)
STATE_MEASURE = "distinct (analysis, flow, phase reached, outcome, fault type, function struck, search number)"
REAL = ["trim", "movement", "problems", "steady horseshoe solver and unsteady solver (about half of the runs)", "scipy.optimize"]
STUB = ["scripted flow in the other runs", "global random state (seeded)", "clock, streams (simulated)"]
ASSUMPTIONS = [
    "Every bound interval has a positive width (scipy's global search refuses degenerate intervals).",
    "The load coefficients are finite.",
]

SLACK = 1e-9
# scipy checks the budget only between its inner local searches, so the bound is generous.
LIMIT = 4000


class Unbounded(BaseException):
    pass


def gen(rng, i, tier):
    analysis = rng.choice(["steady", "steady", "unsteady"])
    real = rng.random() < (0.6 if analysis == "steady" else 0.2)
    opt = dict(max_airplanes=1, max_panels=10, vertical=False, size=0.0)
    if analysis == "steady":
        m = S.gen_model(rng, kind="steady", **opt)
    else:
        m = S.gen_model(rng, steps=(2, 3), move_prob=0.6, static_prob=0.35, op_move=0.0, **dict(opt, max_panels=4))
        for a in m["airplanes"]:
            for w in a["wings"]:
                w["nchord"] = 1
        c = m["airplanes"][0]["wings"][0]["sections"][0]["chord"]
        dt = c / m["op"]["velocity"]
        m["movement"] = S.gen_movement(rng, m["airplanes"], dt, 3, {"move_prob": 0.0 if S.is_static(m) else 0.6})
        for d in oscillations(m):
            d["p"] = dt * rng.choice([2, 2.5, 3])
        for k in ("dt", "steps"):
            del m[k]
    op = m["op"]
    b = {}
    for k, span in (("velocity", 6), ("alpha", 8), ("beta", 5), ("thrust", 8)):
        span *= rng.choice([1, 1, 1, 0.05, 0.004])
        lo = round(op[k] - rng.uniform(0.05, 1) * span * rng.choice([1, 0.1]), 5)
        hi = round(op[k] + rng.uniform(0.05, 1) * span * rng.choice([1, 0.1]), 5)
        b[k] = [max(lo, 1.0) if k == "velocity" else lo, hi]
    budget = rng.choice([3, 8, 15, 30, 60]) if analysis == "steady" else rng.choice([2, 4, 8])
    if real and analysis == "unsteady":
        budget = rng.choice([2, 4])
    plan = {
        "analysis": analysis,
        "model": m,
        "bounds": b,
        "budget": budget,
        "factor": round(rng.choice([rng.uniform(0.02, 0.6), rng.uniform(0.3, 1.2)]), 3),
        "goal": {k: round(v[0] + rng.uniform(0.0, 1.0) * (v[1] - v[0]), 4) for k, v in b.items()},
        "flow": None
        if real
        else {
            "kind": rng.choice(["bowl", "ripples", "ripples", "outside", "outside", "unreachable", "cliff"]),
            "gain": [round(rng.uniform(0.2, 3), 3) for _ in range(4)],
            "freq": round(rng.uniform(3, 14), 2),
        },
        "searches": [],
        "displaced": None,
    }
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = {"rng": rng.randrange(10**6), "fault": None}
        r = rng.random()
        if r < 0.15:
            s["fault"] = {"type": "solver", "at": int(2 ** rng.uniform(0, 6)), "kind": rng.choice(["linalg", "memory", "interrupt", "error", "float"])}
        elif r < 0.3 and analysis == "steady":
            s["fault"] = H.gen_fault(rng, ["line", "line", "solve", "stderr"])
        elif r < 0.38:
            s["fault"] = H.gen_fault(rng, ["stderr"])
        plan["searches"].append(s)
    if rng.random() < 0.06:
        k = rng.choice(["velocity", "alpha", "beta"])
        plan["displaced"] = [k, round(b[k][1] + rng.uniform(0.5, 3), 2)]
    plan["other"] = None
    for x in plan["searches"]:
        x["subject"] = 0
    if len(plan["searches"]) > 1 and rng.random() < 0.6:
        plan["other"] = {
            "factor": round(rng.choice([plan["factor"], rng.uniform(0.3, 1.3), 1.05, 1.5]), 3),
            "budget": rng.choice([budget, budget, max(2, budget // 2)]),
            "twist": round(rng.choice([0.0, 3.0, -3.0, rng.uniform(-6, 6)]), 2),
            "shift": rng.choice([0.0, 0.0, -0.5, 0.5]),
            "flow": None if real else rng.choice([plan["flow"]["kind"], "bowl", "unreachable"]),
        }
        for x in plan["searches"]:
            x["subject"] = rng.randrange(2)
        plan["searches"][-1]["subject"] = 1 - plan["searches"][0]["subject"]
    return plan


def oscillations(m):
    for a in m["movement"]:
        for k in ("x_ref", "y_ref", "z_ref"):
            if a[k]:
                yield a[k]
        for w in a["wings"]:
            for k in "xyz":
                if w[k]:
                    yield w[k]
            for s in w["sections"]:
                for k in ("sweep", "heave", "pitch"):
                    if s[k]:
                        yield s[k]


class Flow:
    """Scripted load coefficients as a function of the flight condition."""

    def __init__(self, plan, weight, s_ref):
        self.p = plan["flow"]
        self.goal = dict(plan["goal"])
        self.b = plan["bounds"]
        self.weight, self.s_ref = weight, s_ref
        self.rho = plan["model"]["op"]["density"]
        self.steady = plan["analysis"] == "steady"
        if self.p["kind"] == "outside":
            for k in ("velocity", "alpha"):
                lo, hi = self.b[k]
                self.goal[k] = hi + 0.4 * (hi - lo)

    def __call__(self, v, alpha, beta):
        q = 0.5 * self.rho * v * v
        g = self.goal
        u = []
        for k, x in (("velocity", v), ("alpha", alpha), ("beta", beta)):
            lo, hi = self.b[k]
            u.append((x - g[k]) / (hi - lo))
        gain = self.p["gain"]
        force = np.array([(g["thrust"] if self.steady else 0.0) / q / self.s_ref, 0.0, self.weight / q / self.s_ref])
        dev = np.array([gain[0] * u[0], gain[1] * u[2], gain[2] * u[1]])
        mom = np.array([0.3 * u[2], gain[3] * (u[1] + 0.2 * u[0]), 0.2 * u[2]])
        if self.p["kind"] == "ripples":
            f = self.p["freq"]
            r = sum(1 - math.cos(f * 2 * math.pi * x) for x in u)
            mom = mom + np.array([0.0, 0.4 * r, 0.0])
        elif self.p["kind"] == "unreachable":
            mom = mom + np.array([0.0, 5.0 + abs(u[1]), 0.0])
        elif self.p["kind"] == "cliff":
            mom = mom + np.array([0.0, 0.0, 0.0 if u[1] > -0.1 else 2.0])
        return force + dev, mom


class Solves:
    """Records every run of the solver class; scripts and fails some."""

    def __init__(self, plan, fail_at=None, kind="linalg", flow=None):
        ps = boot.ps
        self.steady = plan["analysis"] == "steady"
        self.cls = (
            ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver
            if self.steady
            else ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver
        )
        self.fail_at, self.kind, self.flow = fail_at, kind, flow
        self.raised = []
        self.done = []  # (v, alpha, beta, F, M)
        self.n = 0

    @contextlib.contextmanager
    def installed(self):
        real = self.cls.run

        def run(solver, *a, **k):
            self.n += 1
            if self.n > LIMIT:
                raise Unbounded
            if self.n == self.fail_at:
                e = core.make_fault(self.kind, f"(solve {self.n})")
                self.raised.append(e)
                raise e
            op = (solver.steady_problem if self.steady else solver.unsteady_problem.steady_problems[0]).operating_point
            v, al, be = float(op.velocity), float(op.alpha), float(op.beta)
            if self.flow is None:
                real(solver, *a, **k)
            elif self.steady:
                F, M = self.flow(v, al, be)
                air = solver.airplanes[0]
                air.total_near_field_force_coefficients_wind_axes = F
                air.total_near_field_moment_coefficients_wind_axes = M
            else:
                self.script(solver, *self.flow(v, al, be))
            self.done.append((v, al, be) + coefficients(solver, self.steady))

        self.cls.run = run
        try:
            yield self
        finally:
            self.cls.run = real

    @staticmethod
    def script(solver, F, M):
        prob = solver.unsteady_problem
        static = prob.movement.get_max_period() == 0
        decoy = np.array([7.0, 7.0, 7.0])
        p = "final_" if static else "final_mean_"
        for kind in ["final_", "final_mean_", "final_rms_"]:
            good = kind == p
            for name, val in (("force", F), ("moment", M)):
                getattr(prob, f"{kind}near_field_{name}_coefficients_wind_axes").append(val if good else decoy)
                getattr(prob, f"{kind}near_field_{name}s_wind_axes").append(decoy * 3)


def coefficients(solver, steady):
    if steady:
        a = solver.airplanes[0]
        return (
            np.array(a.total_near_field_force_coefficients_wind_axes, dtype=float),
            np.array(a.total_near_field_moment_coefficients_wind_axes, dtype=float),
        )
    prob = solver.unsteady_problem
    p = "final_" if prob.movement.get_max_period() == 0 else "final_mean_"
    return tuple(np.array(getattr(prob, f"{p}near_field_{n}_coefficients_wind_axes")[0], dtype=float) for n in ("force", "moment"))


@contextlib.contextmanager
def optimizers(log):
    """Records the conditions evaluated by scipy's two searches, and the phase."""
    real = {n: getattr(scipy.optimize, n) for n in ("minimize", "dual_annealing")}

    def wrap(name, key):
        def f(*a, **k):
            log["phase"] = name
            if a:
                fun, a = a[0], a[1:]
            else:
                fun = k.pop(key)

            def recorded(x, *r):
                log["args"].append([float(v) for v in np.ravel(x)])
                return fun(x, *r)

            return real[name](recorded, *a, **k)

        return f

    with seams.replaced({(scipy.optimize, "minimize"): wrap("minimize", "fun"), (scipy.optimize, "dual_annealing"): wrap("dual_annealing", "func")}):
        yield


def objective(F, M, v, thrust, weight, rho, s_ref):
    ext = np.array([thrust, 0.0, weight]) / (0.5 * rho * v * v) / s_ref
    return (np.linalg.norm(F - ext) + np.linalg.norm(M)) / 2


def fresh(plan, weight, v, al, be, flow):
    """Load coefficients at a condition, on new objects."""
    m = copy.deepcopy(plan["model"])
    m["op"].update(velocity=v, alpha=al, beta=be)
    if flow is not None:
        return flow(v, al, be)
    b = S.build(m) if plan["analysis"] == "steady" else build_unsteady(m)[0]
    if plan["analysis"] == "steady":
        s = S.steady_solver("horseshoe", b.steady_problem)
        with seams.streams():
            s.run(logging_level="Critical")
        return coefficients(s, True)
    with seams.streams():
        b.run(logging_level="Critical", calculate_streamlines=False)
    return coefficients(b, False)


def build_unsteady(m):
    ps = boot.ps
    airplane = S.make_airplane(m["airplanes"][0], {})
    op = S.make_op(m["op"])
    am = S.make_airplane_movement(m["movement"][0], airplane)
    mov = ps.movement.Movement(
        airplane_movements=[am], operating_point_movement=ps.movement.OperatingPointMovement(base_operating_point=op)
    )
    prob = ps.problems.UnsteadyProblem(movement=mov)
    return ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(prob), am, op


class Subject:
    """One airplane to be trimmed, with its bounds and cut-off."""

    def __init__(self, plan, weight=None):
        ps = boot.ps
        self.steady = steady = plan["analysis"] == "steady"
        m = copy.deepcopy(plan["model"])
        self.plan = plan = dict(plan, model=m)
        b = plan["bounds"]
        base = m["op"]
        airplane = S.make_airplane(m["airplanes"][0], {})
        self.s_ref = s_ref = float(airplane.s_ref)
        if weight is not None:
            pass
        elif plan["flow"] is None:  # a weight that the goal condition nearly carries
            g = plan["goal"]
            F, _ = fresh(plan, 0.0, g["velocity"], g["alpha"], g["beta"], None)
            weight = float(F[2] * 0.5 * base["density"] * g["velocity"] ** 2 * s_ref)
        else:
            weight = m["airplanes"][0]["weight"]
        self.weight = m["airplanes"][0]["weight"] = weight
        airplane = S.make_airplane(m["airplanes"][0], {})
        self.flow = flow = None if plan["flow"] is None else Flow(plan, weight, s_ref)
        F, M = fresh(plan, weight, base["velocity"], base["alpha"], base["beta"], flow)
        thrust0 = base["thrust"] if steady else 0.0
        self.cut = cut = max(1e-4, plan["factor"] * objective(F, M, base["velocity"], thrust0, weight, base["density"], s_ref))
        if plan["displaced"]:
            base[plan["displaced"][0]] = plan["displaced"][1]
        op = S.make_op(base)
        keys = ["velocity", "alpha", "beta"] + (["thrust"] if steady else [])
        self.bounds = bounds = [tuple(b[k]) for k in keys]
        if steady:
            problem = ps.problems.SteadyProblem(airplanes=[airplane], operating_point=op)
            self.call = lambda: ps.trim.analyze_steady_trim(
                problem=problem,
                velocity_bounds=bounds[0],
                alpha_bounds=bounds[1],
                beta_bounds=bounds[2],
                external_thrust_bounds=bounds[3],
                objective_cut_off=cut,
                num_calls=plan["budget"],
            )
        else:
            am = S.make_airplane_movement(m["movement"][0], airplane)
            self.call = lambda: ps.trim.analyze_unsteady_trim(
                airplane_movement=am,
                operating_point=op,
                velocity_bounds=bounds[0],
                alpha_bounds=bounds[1],
                beta_bounds=bounds[2],
                objective_cut_off=cut,
                num_calls=plan["budget"],
            )


def other_plan(plan):
    """The second airplane: the same but for its shape or flow, its cut-off and perhaps its budget."""
    o = copy.deepcopy(plan)
    d = plan["other"]
    o["factor"] = d["factor"]
    o["budget"] = d["budget"]
    if plan["flow"] is None:
        for w in o["model"]["airplanes"][0]["wings"]:
            for s in w["sections"]:
                s["twist"] = s["twist"] + d["twist"]
    else:
        op = plan["model"]["op"]
        o["goal"] = {k: op[k] + d["shift"] * (plan["goal"][k] - op[k]) for k in plan["goal"]}
        o["flow"]["kind"] = d["flow"]
    return o


def run(plan, ctx):
    subjects = [Subject(plan)]
    if plan["other"]:
        subjects.append(Subject(other_plan(plan), subjects[0].weight))
    for n, s in enumerate(plan["searches"]):
        u = subjects[s["subject"] if plan["other"] else 0]
        plan_u, flow, steady = u.plan, u.flow, u.steady
        fault = s["fault"]
        if plan["displaced"] and fault and fault["type"] not in ("solver", "stderr"):
            fault = None
        kind = (plan_u["flow"] or {"kind": "real flow"})["kind"]
        whose = f", airplane {s['subject']}" if plan["other"] else ""
        what = f"search {n} ({plan['analysis']}, {kind}{whose}, {H.describe_fault(fault)})"
        log = {"args": [], "phase": None}
        at_solver = fault is not None and fault["type"] == "solver"
        size = (1, 1, 1)
        if fault is not None and fault["type"] not in ("solver", "stderr"):
            size = H.solo(lambda: measure(plan_u, u.call, flow, s))
        sol = Solves(plan_u, fault["at"] if at_solver else None, fault["kind"] if at_solver else None, flow)
        np.random.seed(s["rng"])
        with optimizers(log), sol.installed():
            out = H.faulty(u.call, None if at_solver else fault, size, ctx)
        if sol.raised:
            out.fault, out.fired = sol.raised[0], "solver.run"
            ctx.fault(f"failing solve/{fault['kind']}")
        ctx.count("solves", sol.n)
        ctx.count("searches")
        ctx.nontrivial = ctx.nontrivial or sol.n > 1
        judge(ctx, plan_u, out, sol, log, u.bounds, u.cut, u.weight, u.s_ref, flow, steady, what)
        ctx.state(plan["analysis"], kind, log["phase"], outcome(out), (fault or {}).get("type"), out.fired, n)
        ctx.event("search", n, out.value, out.fired, type(out.error).__name__, sol.n)
        for d in sol.done:
            ctx.event(d[0], d[1], d[2], d[3], d[4])


def measure(plan, call, flow, s):
    np.random.seed(s["rng"])
    sol = Solves(plan, None, None, flow)
    with sol.installed():
        _, lines, calls, solves = H.measure(call)
    return lines, calls, solves


def outcome(out):
    if out.error is not None:
        return "error"
    return "nothing" if np.any(np.isnan(np.array(out.value, dtype=float))) else "found"


def judge(ctx, plan, out, sol, log, bounds, cut, weight, s_ref, flow, steady, what):
    rho = plan["model"]["op"]["density"]
    ctx.check(sol.n <= LIMIT, "unbounded-search", f"{what}: {sol.n} solves for a budget of {plan['budget']}")
    if sol.raised:
        ctx.check(out.error is not None, "failure-swallowed", f"{what}: the failing solve {sol.n} became the result {out.value}")
    if out.error is not None:
        if plan["displaced"] and out.fault is None and isinstance(out.error, Exception):
            ctx.count("searches refused")
            return
        H.require_fault_reached(ctx, out, what)
        ctx.count("searches failed")
        return
    try:
        x = np.array(list(out.value), dtype=float)
        ok = x.shape == (len(bounds),)
    except (TypeError, ValueError):
        ok = False
    ctx.check(ok, "bad-result", f"{what}: returned {out.value!r}")
    if np.any(np.isnan(x)):
        ctx.count("nothing found")
        ctx.check(np.all(np.isnan(x)), "bad-result", f"{what}: returned {x}")
        # The condition that was given is the first to be looked at.
        base = plan["model"]["op"]
        x0 = [base["velocity"], base["alpha"], base["beta"], base["thrust"] if steady else 0.0]
        if not plan["displaced"]:
            F, M = fresh(plan, weight, *x0[:3], flow)
            o = objective(F, M, x0[0], x0[3], weight, rho, s_ref)
            ctx.check(not o < cut * (1 - 1e-7), "condition-lost", f"{what}: found nothing although the given condition has objective {o} < {cut}")
        if steady and len(log["args"]) != len(sol.done):
            return
        for k, (v, al, be, F, M) in enumerate(sol.done):
            t = log["args"][k][3] if steady else 0.0
            o = objective(F, M, v, t, weight, rho, s_ref)
            ctx.check(
                not o < cut * (1 - SLACK),
                "condition-lost",
                lambda: f"{what}: found nothing although evaluation {k} at {(v, al, be, t)} has objective {o} < {cut}",
            )
        return
    ctx.count("conditions found")
    for v, (lo, hi), name in zip(x, bounds, ("velocity", "alpha", "beta", "thrust")):
        tol = 1e-12 * (1 + abs(lo) + abs(hi))
        ctx.check(lo - tol <= v <= hi + tol, "out-of-bounds", f"{what}: returned {name} {v}, outside [{lo}, {hi}]")
    F, M = fresh(plan, weight, float(x[0]), float(x[1]), float(x[2]), flow)
    o = objective(F, M, x[0], x[3] if steady else 0.0, weight, rho, s_ref)
    ctx.check(
        o <= cut * (1 + 1e-7) + 1e-12,
        "not-trimmed",
        lambda: f"{what}: returned {x.tolist()} with objective {o} on fresh objects, cut-off {cut} ({log['phase']}, {sol.n} solves)",
    )


def shrink(plan):
    for i in range(len(plan["searches"])):
        if len(plan["searches"]) > 1:
            c = copy.deepcopy(plan)
            del c["searches"][i]
            yield c
        if plan["searches"][i]["subject"]:
            c = copy.deepcopy(plan)
            c["searches"][i]["subject"] = 0
            yield c
        if plan["searches"][i]["fault"]:
            c = copy.deepcopy(plan)
            c["searches"][i]["fault"] = None
            yield c
    if plan["budget"] > 2:
        c = copy.deepcopy(plan)
        c["budget"] //= 2
        yield c
    if plan["displaced"]:
        c = copy.deepcopy(plan)
        c["displaced"] = None
        yield c
    for m in S.shrink_model(plan["model"]):
        c = copy.deepcopy(plan)
        c["model"] = m
        yield c
