"""C09: a convergence study's answer is justified by the solves it made, at any speed."""

import contextlib
import copy
import math
import random

import numpy as np

from .. import boot, core
from .. import harness as H
from .. import observe as O
from .. import spec as S
from . import c12

ID = "C09"
RUNS = {"quick": 420, "thorough": 12000}
RULE = (
    "A case is a random reference problem (steady or unsteady, 1-2 airplanes, static or moving), random bounds of "
    "every studied direction (single, double or triple), criterion and coefficient mask, a random clock behaviour, and "
    "1-2 studies of the same reference problem, some with a failing solve, a crash at a random line, a failing linear "
    "solve or a failing log stream. The flow is the real solver's or a scripted one whose changes per refinement are "
    "log-uniform around the criterion, different for each airplane and coefficient. Every solve's model and "
    "coefficients are recorded; an independent model of the documented search decides the answer. Non-trivial: more "
    "than one solve; cases are distinct if their event logs differ."
)
STATE_MEASURE = "distinct (study, flow, grid shape, solves made, answer kind, fault type, function struck, clock)"
REAL = ["convergence", "geometry", "movement", "problems", "the three solvers (about half of the steady runs, a fifth of the unsteady ones)"]
STUB = ["scripted flow in the other runs", "clock and streams (simulated)"]
ASSUMPTIONS = [
    "Wings and cross sections have the default unit vectors (the code documents that others are not supported yet).",
    "Every section gets at least one spanwise panel at the coarsest candidate.",
    "Airfoils may be repanelled again: geometry is compared to 5e-3.",
]

TOL = 5e-3


def gen(rng, i, tier):
    study = rng.choice(["horseshoe", "ring", "unsteady", "unsteady"])
    real = rng.random() < (0.5 if study != "unsteady" else 0.2)
    opt = dict(max_panels=40, slanted=0.12, user_refs=0.5, size=0.0)
    crit = round(math.exp(rng.uniform(math.log(0.3), math.log(30))), 3)
    if study != "unsteady":
        m = S.gen_model(rng, kind="steady", max_airplanes=2 if rng.random() < 0.5 else 1, **opt)
    else:
        m = S.gen_model(
            rng, steps=(2, 3), static_prob=0.45, move_prob=0.5, op_move=0.2, multi_wing=not real, max_airplanes=1 if real else 2, **opt
        )
        for k in ("dt", "steps"):
            del m[k]
    n0 = rng.choice([1, 2, 2, 3])
    while n0 < 6:
        cap = min(length(w, j) * n0 / (chord(w, j) * 0.56) for a in m["airplanes"] for w in a["wings"] for j in range(len(w["sections"]) - 1))
        if cap >= 1:
            break
        n0 += 1
    top = max(1, min(rng.choice([1, 2, 3, 4, 5]), int(cap)))
    n_ar = rng.choice([1, 2, 2, 3])
    n_chord = rng.choice([1, 2, 3, 3, 4]) if study != "unsteady" else rng.choice([1, 2, 2, 3])
    plan = {
        "study": study,
        "model": m,
        "ar": [top, max(1, top - n_ar + 1)],
        "chord": [n0, n0 + n_chord - 1],
        "criterion": crit,
        "script": None if real else {"seed": rng.randrange(10**9), "spread": rng.choice([0.3, 1, 1, 3]), "top": rng.choice([0.1, 0.4, 1.2])},
        "studies": [],
        "solved_before": rng.random() < 0.2,
    }
    if study == "unsteady":
        c = min(a.get("c_ref") or min(s["chord"] for w in a["wings"] for s in w["sections"]) for a in m["airplanes"])
        dt = c / m["op"]["velocity"] / plan["chord"][1]
        for d in oscillations(m):
            d["p"] = round(dt * rng.choice([2, 2.5, 3]) * (1 if real else rng.choice([1, 1.5])), 5)
        plan["wakes"] = rng.choice([[True], [False], [True, False], [True, False]])
        n = rng.choice([1, 2, 2, 3])
        if real:
            n = min(n, 2)
            plan["chord"][1] = min(plan["chord"][1], n0 + 1)
        lo = rng.choice([1, 1, 2])
        plan["cycles"] = [lo, lo + n - 1]
        plan["chords"] = [lo, lo + n - 1]
        # The bounds that do not apply must not matter.
        if S.is_static(m):
            plan["cycles"] = [rng.choice([1, 3]), rng.choice([3, 5])]
        else:
            plan["chords"] = [rng.choice([1, 3]), rng.choice([3, 5])]
        plan["mask"] = None if rng.random() < 0.4 else [rng.random() < 0.5 for _ in range(6)]
        if plan["mask"] and not any(plan["mask"]):
            plan["mask"][rng.randrange(6)] = True
    for _ in range(rng.choice([1, 1, 2])):
        s = {"fault": None, "clock": rng.choice(["tick", "frozen", "jumpy", "backwards"]), "clock_seed": rng.randrange(1000)}
        r = rng.random()
        if r < 0.18:
            s["fault"] = {"type": "solver", "at": rng.choice([1, 1, 2, 2, 3, 4, 6, 9]), "kind": rng.choice(["linalg", "memory", "interrupt", "error", "float"])}
        elif r < 0.3 and (study != "unsteady" or not real):
            s["fault"] = H.gen_fault(rng, ["line", "line", "stderr"] + (["solve"] if real else []))
        plan["studies"].append(s)
    return plan


def length(w, j):
    """Along the normal of the wing's root plane."""
    a, b = w["sections"][j], w["sections"][j + 1]
    return abs(sum((b[k] - a[k]) * n for k, n in zip("xyz", w["normal"])))


def chord(w, j):
    return (w["sections"][j]["chord"] + w["sections"][j + 1]["chord"]) / 2


def oscillations(m):
    if m.get("op_move"):
        yield m["op_move"]
    for a in m["movement"]:
        for k in ("x_ref", "y_ref", "z_ref"):
            if a[k]:
                yield a[k]
        for w in a["wings"]:
            for k in "xyz":
                if w[k]:
                    yield w[k]
            for s in w["sections"]:
                for k in ("sweep", "heave", "pitch"):
                    if s[k]:
                        yield s[k]


# ------------------------------------------------------------- reference search


def axes(plan):
    """The candidates of every direction, outermost first, coarsest first."""
    ar = list(range(plan["ar"][0], plan["ar"][1] - 1, -1))
    nc = list(range(plan["chord"][0], plan["chord"][1] + 1))
    if plan["study"] != "unsteady":
        return [("ar", ar), ("chord", nc)]
    b = plan["chords"] if S.is_static(plan["model"]) else plan["cycles"]
    return [("wake", list(plan["wakes"])), ("length", list(range(b[0], b[1] + 1))), ("ar", ar), ("chord", nc)]


def grid(plan):
    out = [()]
    for _, vals in axes(plan):
        out = [e + (k,) for e in out for k in range(len(vals))]
    return out


def decide(plan, coefs):
    """(answer, number of solves needed, ambiguous) from the coefficients of the solves made."""
    ax = axes(plan)
    seen = {}
    for n, entry in enumerate(grid(plan)):
        if n >= len(coefs):
            return None, n + 1, False
        seen[entry] = coefs[n]
        answer = []
        close = False
        for d, (name, vals) in enumerate(ax):
            change = math.inf
            if entry[d] > 0:
                prev = seen[entry[:d] + (entry[d] - 1,) + entry[d + 1 :]]
                with np.errstate(all="ignore"):
                    change = float(np.max(np.abs((coefs[n] - prev) / prev) * 100))
            if abs(change - plan["criterion"]) < 1e-9 * plan["criterion"]:
                close = True
            converged = change < plan["criterion"]
            v = vals[entry[d]]
            saturated = (name == "ar" and v == 1) or (name == "wake" and v is False)
            if len(vals) == 1:
                answer.append(v)
            elif converged:
                answer.append(vals[entry[d] - 1])
            elif saturated:
                answer.append(v)
            else:
                answer = None
                break
        if close:
            return None, n + 1, True
        if answer is not None:
            return answer, n + 1, False
    return [None] * len(ax), len(seen), False


def judged(plan, coefs):
    """The numbers the documented comparison uses: norms (steady) or masked components."""
    out = []
    for F, M in coefs:
        if plan["study"] != "unsteady":
            out.append([np.linalg.norm(F), np.linalg.norm(M)])
        else:
            v = np.concatenate([F, M])
            out.append(v if plan["mask"] is None else v[np.array(plan["mask"])])
    return np.array(out, dtype=float)


# --------------------------------------------------------------- recorded solves


class Script:
    def __init__(self, plan):
        self.p = plan["script"]
        self.crit = plan["criterion"]

    def __call__(self, entry, airplane):
        """Force and moment coefficients of one airplane at one grid entry."""
        p = self.p
        out = []
        for j in range(6):
            r = random.Random(f"{p['seed']}/{airplane}/{j}")
            v = r.choice([-1, 1]) * math.exp(r.uniform(-3, 1))
            for d, k in enumerate(entry):
                for step in range(1, k + 1):
                    q = random.Random(f"{p['seed']}/{airplane}/{j}/{d}/{step}")
                    # changes shrink with refinement, on both sides of the criterion
                    size = self.crit / 100 * math.exp(q.uniform(-2.2, p["top"]) * p["spread"]) / step
                    v *= 1 + q.choice([-1, 1]) * min(size, 0.8)
            q = random.Random(f"{p['seed']}/{airplane}/{j}/{entry}")
            v *= 1 + q.uniform(-0.05, 0.05) * self.crit / 100
            out.append(v)
        return np.array(out[:3]), np.array(out[3:])


class Solves:
    """Records every solve of the study: its model and its coefficients."""

    def __init__(self, plan, check, fail_at=None, kind=None):
        ps = boot.ps
        self.plan = plan
        self.check = check
        self.entries = grid(plan)
        self.fail_at, self.kind = fail_at, kind
        self.script = Script(plan) if plan["script"] else None
        self.classes = {
            "horseshoe": ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver,
            "ring": ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver,
            "unsteady": ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver,
        }
        self.n = 0
        self.raised = []
        self.coefs = []
        self.violation = None

    @contextlib.contextmanager
    def installed(self):
        real = {k: c.run for k, c in self.classes.items()}
        for k, c in self.classes.items():
            c.run = self.wrap(k, real[k])
        try:
            yield self
        finally:
            for k, c in self.classes.items():
                c.run = real[k]

    def wrap(self, kind, real):
        def run(solver, *a, **k):
            self.n += 1
            if self.n > len(self.entries):
                raise core.PropertyViolated("too-many-solves", f"solve {self.n} of a grid of {len(self.entries)}")
            entry = self.entries[self.n - 1]
            if self.check is not None:
                self.check(self.n, entry, kind, solver, a, k)
            if self.n == self.fail_at:
                e = core.make_fault(self.kind, f"(solve {self.n})")
                self.raised.append(e)
                raise e
            if self.script is None:
                real(solver, *a, **k)
            else:
                self.fake(entry, kind, solver)
            self.coefs.append(judged(self.plan, self.read(kind, solver)))

        return run

    def fake(self, entry, kind, solver):
        if kind != "unsteady":
            for i, air in enumerate(solver.airplanes):
                F, M = self.script(entry, i)
                air.total_near_field_force_coefficients_wind_axes = F
                air.total_near_field_moment_coefficients_wind_axes = M
                air.total_near_field_force_wind_axes = F * 11
                air.total_near_field_moment_wind_axes = M * 13
            return
        prob = solver.unsteady_problem
        want = self.prefix()
        n = len(prob.steady_problems[0].airplanes)
        for p in ("final_", "final_mean_", "final_rms_"):
            for i in range(n):
                F, M = self.script(entry, i if p == want else i + 50)
                getattr(prob, f"{p}near_field_force_coefficients_wind_axes").append(F)
                getattr(prob, f"{p}near_field_moment_coefficients_wind_axes").append(M)
                getattr(prob, f"{p}near_field_forces_wind_axes").append(F * 11)
                getattr(prob, f"{p}near_field_moments_wind_axes").append(M * 13)

    def prefix(self):
        return "final_" if S.is_static(self.plan["model"]) else "final_rms_"

    def read(self, kind, solver):
        if kind != "unsteady":
            return [
                (np.array(a.total_near_field_force_coefficients_wind_axes), np.array(a.total_near_field_moment_coefficients_wind_axes))
                for a in solver.airplanes
            ]
        prob = solver.unsteady_problem
        p = self.prefix()
        return list(
            zip(
                getattr(prob, f"{p}near_field_force_coefficients_wind_axes"),
                getattr(prob, f"{p}near_field_moment_coefficients_wind_axes"),
            )
        )


def near(k, x, y):
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        if "airfoil" in k:
            return True  # repanelled again; the panels show what matters
        tol = TOL if k == "panels" or k.endswith("_ref") else 1e-8
        return x.shape == y.shape and bool(np.all(np.abs(x - y) <= tol * (1.0 + np.abs(x))))
    return type(x) == type(y) and x == y


def check_mesh(ctx, plan, cache, what):
    """A hook that compares each solved model with the reference model at its resolution."""
    ax = [n for n, _ in axes(plan)]
    m = plan["model"]

    def compare(got, want, where):
        g, w = c12.record(got), c12.record(want)
        for k in w:
            ctx.check(k in g and near(k, g[k], w[k]), "wrong-model", lambda: f"{where}: {k} is {g.get(k)} and should be {w[k]}")

    def resolve(airplane, spec, v, where):
        """The specification at this resolution; checks the spanwise panel counts."""
        spec = copy.deepcopy(spec)
        for wing, w in zip(airplane.wings, spec["wings"]):
            w["nchord"] = v["chord"]
            for j in range(len(w["sections"]) - 1):
                x = length(w, j) * v["chord"] / (chord(w, j) * v["ar"])
                n = wing.wing_cross_sections[j].num_spanwise_panels
                ctx.check(
                    abs(n - x) <= 0.5 + 1e-6,
                    "wrong-resolution",
                    lambda: f"{where}: section {j} has {n} spanwise panels for an aspect ratio of {v['ar']} (exactly {x:.3f})",
                )
                w["sections"][j]["nspan"] = int(n)
            w["sections"][-1]["nspan"] = wing.wing_cross_sections[-1].num_spanwise_panels
        return spec

    def hook(n, entry, kind, solver, a, k):
        v = {name: vals[i] for (name, vals), i in zip(axes(plan), entry)}
        where = f"{what}, solve {n} at {v}"
        ctx.check(kind == plan["study"], "wrong-solver", f"{where}: solved with the {kind} solver")
        if kind != "unsteady":
            airplanes = solver.airplanes
            ctx.check(len(airplanes) == len(m["airplanes"]), "wrong-model", f"{where}: {len(airplanes)} airplanes")
            for air, s in zip(airplanes, m["airplanes"]):
                compare(air, S.make_airplane(resolve(air, s, v, where), cache), where)
            ops = [(solver.steady_problem.operating_point, m["op"])]
        else:
            prob = solver.unsteady_problem
            steps = prob.steady_problems
            dt = prob.movement.delta_time
            num = len(steps)
            base = [am.base_airplane for am in prob.movement.airplane_movements]
            specs = [resolve(air, s, v, where) for air, s in zip(steps[0].airplanes, m["airplanes"])]
            ctx.check(len(specs) == len(m["airplanes"]), "wrong-model", f"{where}: {len(specs)} airplanes")
            vel = m["op"]["velocity"]
            want = sum(x.c_ref / v["chord"] / vel for x in base) / len(base)
            ctx.check(abs(dt - want) <= TOL * want, "wrong-model", f"{where}: time step {dt}, not {want}")
            if S.is_static(m):
                ok = c12.ceilings(v["length"] * max(x.c_ref for x in base) / (dt * vel))
            else:
                ok = c12.ceilings(v["length"] * S.max_period(m) / dt)
            ctx.check(num in ok, "wrong-wake-length", f"{where}: {num} steps, not {ok}")
            for j in sorted({0, num // 2, num - 1}):
                for air, s, mv in zip(steps[j].airplanes, specs, m["movement"]):
                    compare(air, S.make_airplane(c12.step_spec(s, mv, j * dt), cache), f"{where}, step {j}")
            ops = [
                (steps[j].operating_point, dict(m["op"], velocity=c12.wave(m.get("op_move"), m["op"]["velocity"], j * dt))) for j in (0, num - 1)
            ]
            pw = k["prescribed_wake"] if "prescribed_wake" in k else (a[1] if len(a) > 1 else True)
            ctx.check(bool(pw) == v["wake"], "wrong-wake", f"{where}: prescribed_wake={pw}")
        for op, o in ops:
            g, w = O.op_params(op), O.op_params(S.make_op(o))
            for q in w:
                ctx.check(near(q, g[q], w[q]), "wrong-model", f"{where}: the operating point's {q} is {g[q]}, not {w[q]}")
        ctx.count("models compared")

    return hook


# -------------------------------------------------------------------------- run


def snapshot(plan, b):
    d = {}
    for i, a in enumerate(b.airplanes):
        for k, v in c12.record(a).items():
            d[f"base{i}.{k}"] = v
        for k, v in O.airplane_results(a).items():
            d[f"base{i}.{k}"] = v
    for k, v in O.op_params(b.op).items():
        d["op." + k] = v
    if plan["study"] == "unsteady":
        for j, sp in enumerate(b.problem.steady_problems):
            for i, a in enumerate(sp.airplanes):
                for k, v in c12.record(a).items():
                    d[f"step{j}.{i}.{k}"] = v
                for k, v in O.airplane_results(a).items():
                    d[f"step{j}.{i}.{k}"] = v
        d.update(O.finals(b.problem))
        d["num_steps"], d["dt"] = b.movement.num_steps, b.movement.delta_time
    return d


def run(plan, ctx):
    ps = boot.ps
    cache = {}
    m = copy.deepcopy(plan["model"])
    unsteady = plan["study"] == "unsteady"
    if unsteady:
        m["steps"] = 2
    b = S.build(m, cache)
    if plan["solved_before"]:
        with H.seams.streams():
            S.make_solver(plan["study"], b).run(logging_level="Critical")
    before = snapshot(plan, b)
    name = {"horseshoe": "steady horseshoe vortex lattice method", "ring": "steady ring vortex lattice method"}
    if unsteady:
        call = lambda: ps.convergence.analyze_unsteady_convergence(
            ref_problem=b.problem,
            prescribed_wake=True in plan["wakes"],
            free_wake=False in plan["wakes"],
            num_cycles_bounds=tuple(plan["cycles"]),
            num_chords_bounds=tuple(plan["chords"]),
            panel_aspect_ratio_bounds=tuple(plan["ar"]),
            num_chordwise_panels_bounds=tuple(plan["chord"]),
            coefficient_mask=copy.copy(plan["mask"]),
            convergence_criteria=plan["criterion"],
        )
    else:
        call = lambda: ps.convergence.analyze_steady_convergence(
            ref_problem=b.steady_problem,
            solver_type=name[plan["study"]],
            panel_aspect_ratio_bounds=tuple(plan["ar"]),
            num_chordwise_panels_bounds=tuple(plan["chord"]),
            convergence_criteria=plan["criterion"],
        )
    shape = tuple(len(v) for _, v in axes(plan))
    size = None
    for n, s in enumerate(plan["studies"]):
        fault = s["fault"]
        what = f"study {n} ({plan['study']}, grid {shape}, {H.describe_fault(fault)}, clock {s['clock']})"
        at_solver = fault is not None and fault["type"] == "solver"
        lines = fault is not None and fault["type"] not in ("solver", "stderr")
        if lines and size is None:
            size = H.solo(lambda: measure(plan, call))
        # (line counts would be off by the hook's own lines only in /verif, which are not traced)
        sol = Solves(plan, check_mesh(ctx, plan, cache, what), fault["at"] if at_solver else None, fault["kind"] if at_solver else None)
        with sol.installed():
            out = H.faulty(call, None if at_solver else fault, size or (1, 1, 1), ctx, clock=s["clock"], clock_seed=s["clock_seed"])
        if isinstance(out.error, core.PropertyViolated):
            raise out.error
        if sol.raised:
            out.fault, out.fired = sol.raised[0], "solver.run"
            ctx.fault(f"failing solve/{fault['kind']}")
        ctx.count("solves", sol.n)
        ctx.count("studies")
        ctx.nontrivial = ctx.nontrivial or sol.n > 1
        kind = judge(ctx, plan, out, sol, what)
        after = snapshot(plan, b)
        bad = O.diff(before, after, rtol=0.0)
        ctx.check(not bad, "reference-changed", lambda: f"{what}: the reference problem changed: {bad}")
        ctx.state(plan["study"], plan["script"] is None, shape, sol.n, kind, (fault or {}).get("type"), out.fired, s["clock"])
        ctx.event("study", n, out.value, out.fired, type(out.error).__name__, sol.n)
        for c in sol.coefs:
            ctx.event(c)


def measure(plan, call):
    sol = Solves(plan, None)
    with sol.installed():
        _, lines, calls, solves = H.measure(call)
    return lines, calls, solves


def judge(ctx, plan, out, sol, what):
    if sol.raised:
        ctx.check(out.error is not None, "failure-swallowed", f"{what}: the failing solve {sol.n} became the answer {out.value}")
    want, needed, ambiguous = decide(plan, sol.coefs)
    if out.error is not None:
        H.require_fault_reached(ctx, out, what)
        ctx.count("studies failed")
        if not ambiguous and want is not None:
            ctx.check(sol.n <= needed, "solved-on", f"{what}: kept solving after solve {needed} justified {want}")
        return "failed"
    if ambiguous:
        ctx.count("too close to the criterion")
        return "ambiguous"
    ctx.check(want is not None, "unfinished", f"{what}: answered {out.value} after {sol.n} solves, which justify nothing yet")
    ctx.check(sol.n == needed, "solved-on", f"{what}: made {sol.n} solves although solve {needed} justified {want}")
    got = out.value
    ok = isinstance(got, (list, tuple)) and len(got) == len(want) and all(x == y and (x is None) == (y is None) for x, y in zip(got, want))
    ctx.check(ok, "wrong-answer", f"{what}: answered {got}; its {sol.n} solves justify {want}")
    ctx.count("nothing found" if want[0] is None else "meshes found")
    return "none" if want[0] is None else "found"


def shrink(plan):
    for i in range(len(plan["studies"])):
        if len(plan["studies"]) > 1:
            c = copy.deepcopy(plan)
            del c["studies"][i]
            yield c
        if plan["studies"][i]["fault"]:
            c = copy.deepcopy(plan)
            c["studies"][i]["fault"] = None
            yield c
        if plan["studies"][i]["clock"] != "tick":
            c = copy.deepcopy(plan)
            c["studies"][i]["clock"] = "tick"
            yield c
    if plan["solved_before"]:
        c = copy.deepcopy(plan)
        c["solved_before"] = False
        yield c
    for k in ("chord", "chords", "cycles"):
        if k in plan and plan[k][1] > plan[k][0]:
            c = copy.deepcopy(plan)
            c[k][1] -= 1
            yield c
    if plan["ar"][0] > plan["ar"][1]:
        c = copy.deepcopy(plan)
        c["ar"][1] += 1
        yield c
    if len(plan.get("wakes", [])) > 1:
        for w in (True, False):
            c = copy.deepcopy(plan)
            c["wakes"] = [w]
            yield c
    for m in S.shrink_model(plan["model"]):
        c = copy.deepcopy(plan)
        c["model"] = m
        yield c
