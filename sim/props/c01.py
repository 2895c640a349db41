"""C01: interrupted, failed or repeated solves leave no trace in the next result."""

import copy

from .. import harness as H
from .. import observe as O
from .. import spec as S

ID = "C01"
RUNS = {"quick": 420, "thorough": 12000}
RULE = (
    "A case is a random model (1-2 airplanes, 1-2 wings, static or moving), one of the three "
    "solvers and a random history of 1-4 runs of one solver object (clean, crashed at a random "
    "executed line or function entry, failing linear solve, failing progress stream, other "
    "options; sometimes of a copy of the solver), then a clean run compared with a fresh solver's. Non-trivial: at least one earlier "
    "run happened before the final one; cases are distinct if their event logs differ."
)
STATE_MEASURE = "distinct (solver, fault type, function the fault struck, position in history)"
REAL = ["geometry", "meshing", "movement", "problems", "all three solvers", "numba kernels", "numpy.linalg.solve", "tqdm"]
STUB = ["clock (simulated)", "stderr/stdout and log streams (simulated)"]
ASSUMPTIONS = ["A crash is an exception raised between two executed lines of the package."]


def gen(rng, i, tier):
    kind = rng.choice(["unsteady", "unsteady", "unsteady", "ring", "horseshoe"])
    if kind == "unsteady":
        big = rng.random() < (0.1 if tier == "quick" else 0.25)
        model = S.gen_model(rng, steps=(2, 9 if big else 5), max_panels=24 if big else 14, fine=0.03, op_move=0.35)
    else:
        model = S.gen_model(rng, kind="steady", max_panels=30, fine=0.03)
    ops = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        op = {"kw": gen_kw(rng, kind, model), "fault": None}
        r = rng.random()
        if r < 0.7:
            allow = ["line", "line", "line", "solve"] + (["stderr"] if kind == "unsteady" else [])
            op["fault"] = H.gen_fault(rng, allow)
        elif r < 0.76:
            op["kw"]["logging_level"] = "Nonsense"
        # Sometimes a copy of the solver is what runs, or what everything continues with.
        op["on"] = rng.choice(["self"] * 8 + ["copy", "continue with copy"])
        ops.append(op)
    return {
        "kind": kind,
        "model": model,
        "ops": ops,
        "final": gen_kw(rng, kind, model, same=0.75),
        "clock": rng.choice(["tick", "jumpy"]),
        "fresh_solver": rng.random() < 0.15,
        "final_copy": rng.random() < 0.08,
    }


def gen_kw(rng, kind, model, same=0.6):
    if kind != "unsteady":
        return {"logging_level": rng.choice(["Warning", "Critical", "Debug"])}
    kw = {
        "prescribed_wake": model["prescribed"],
        "calculate_streamlines": model["streamlines"],
        "logging_level": rng.choice(["Warning", "Warning", "Info"]),
    }
    if rng.random() > same:
        kw["prescribed_wake"] = not kw["prescribed_wake"]
    if rng.random() > same:
        kw["calculate_streamlines"] = not kw["calculate_streamlines"]
    return kw


def key(kw):
    return tuple(sorted((k, v) for k, v in kw.items() if k != "logging_level"))


def run(plan, ctx):
    kind, model = plan["kind"], plan["model"]
    refs = {}

    def reference(kw):
        k = key(kw)
        if k not in refs:
            b = S.build(model)
            s = S.make_solver(kind, b)
            good = dict(kw)
            if good["logging_level"] == "Nonsense":
                good["logging_level"] = "Warning"
            _, lines, calls, solves = H.measure(lambda: s.run(**good))
            refs[k] = (O.results(s, kind), (lines, calls, solves))
        return refs[k]

    b = S.build(model)
    solver = S.make_solver(kind, b)
    ctx.sim_seconds += S.sim_time(model) * (len(plan["ops"]) + 1)
    for n, op in enumerate(plan["ops"]):
        ref, size = reference(op["kw"])
        bad_level = op["kw"]["logging_level"] == "Nonsense"
        it = solver
        if op.get("on", "self") != "self":
            it = copy.deepcopy(solver)
            ctx.count("solvers copied")
            if op["on"] != "copy":
                solver = it
        out = H.faulty(lambda: it.run(**op["kw"]), op["fault"], size, ctx, plan["clock"], n)
        ctx.event("op", n, op["kw"], out.fired, type(out.error).__name__)
        ctx.nontrivial = True
        ctx.state(kind, op["fault"] and op["fault"]["type"], out.fired, n)
        what = f"run {n} of the {kind} solver ({H.describe_fault(op['fault'])})"
        if out.error is None:
            ctx.count("runs completed")
            ctx.check(not bad_level, "bad-level-accepted", f"{what}: an invalid logging level was accepted")
            d = O.diff(ref, O.results(it, kind))
            ctx.check(
                not d,
                "incomplete-result",
                f"{what} returned normally but its results differ from a fresh solver's: {d}",
            )
        elif bad_level and out.fault is None:
            ctx.count("runs refused")
        else:
            ctx.count("runs failed")
            H.require_fault_reached(ctx, out, what)
    kw = plan["final"]
    ref, size = reference(kw)
    if plan["fresh_solver"]:
        solver = S.make_solver(kind, b)
    if plan.get("final_copy"):
        solver = copy.deepcopy(solver)
    out = H.faulty(lambda: solver.run(**kw), None, size, ctx)
    if out.error is not None:
        ctx.check(False, "rerun-fails", f"clean run after {hist(plan)} failed: {type(out.error).__name__}: {out.error}")
    obs = O.results(solver, kind)
    O.feed(ctx, obs, only=["circulation", "final", "streamlines", "total"])
    d = O.diff(ref, obs)
    ctx.check(not d, "history-dependence", f"clean {kind} run after {hist(plan)} differs from a fresh solver's: {d}")


def hist(plan):
    return "[" + "; ".join(H.describe_fault(o["fault"]) for o in plan["ops"]) + "]"


def shrink(plan):
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            c = copy.deepcopy(plan)
            del c["ops"][i]
            yield c
    for m in S.shrink_model(plan["model"]):
        c = copy.deepcopy(plan)
        c["model"] = m
        yield c
    if plan["clock"] != "tick":
        c = copy.deepcopy(plan)
        c["clock"] = "tick"
        yield c
    for i, o in enumerate(plan["ops"]):
        if o.get("on", "self") != "self":
            c = copy.deepcopy(plan)
            c["ops"][i]["on"] = "self"
            yield c
        if o["fault"]:
            c = copy.deepcopy(plan)
            c["ops"][i]["fault"] = None
            yield c
        for k in ("prescribed_wake", "calculate_streamlines"):
            if o["kw"].get(k) != plan["final"].get(k):
                c = copy.deepcopy(plan)
                c["ops"][i]["kw"][k] = plan["final"][k]
                yield c
