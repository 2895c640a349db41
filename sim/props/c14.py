"""C14: a solve depends only on the model as it is now, not on what was solved before."""

import copy
import gc
import pickle

from .. import boot
from .. import harness as H
from .. import observe as O
from .. import refmodel as R
from .. import seams
from .. import spec as S

ID = "C14"
RUNS = {"quick": 700, "thorough": 25000}
RULE = (
    "A case is one random model whose airplane, wing and operating point objects are shared by a "
    "random sequence of 2-7 operations: horseshoe, ring and unsteady solves (new, kept or repeated "
    "solver and problem objects, some or all airplanes in any order, together with airplanes that "
    "exist for one solve only or are made of some of another's wings, at the shared or another operating point, "
    "on the objects or on copies of airplanes, problems or solvers, steady solves of an unsteady problem's own "
    "steps), edits of the operating point and reference values, and solves that crash or fail. "
    "Every completed solve is compared with a twin built from scratch and, if steady, with a "
    "reference flow model. Non-trivial: some solve completed after another operation."
)
STATE_MEASURE = "distinct pairs of consecutive operations and (operation, function struck by a fault)"
REAL = ["geometry", "meshing", "movement", "problems", "all three solvers", "numba kernels", "numpy.linalg.solve", "tqdm"]
STUB = ["clock (simulated)", "stderr/stdout and log streams (simulated)"]


def gen(rng, i, tier):
    resized = rng.random() < 0.12
    model = S.gen_model(rng, steps=(2, 4), max_panels=18, fine=0.03, op_move=0.3, static_prob=0.3, only_final=0.2, size=float(resized))
    visitors = [] if resized else gen_visitors(rng, model)
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < 0.55:
            op = {"op": "steady", "kind": rng.choice(["ring", "horseshoe"]), "reuse": rng.random() < 0.45, "members": gen_members(rng, model, visitors)}
            if rng.random() < 0.2:
                op["flow"] = {k: edit_value(rng, k) for k in rng.sample(FLOW, rng.choice([1, 1, 2]))}
            if rng.random() < 0.2:
                op["copied"] = rng.choice(["airplanes", "airplanes", "problem", "solver", "pickled"])
        elif r < 0.70:
            op = {"op": "unsteady", "reuse": rng.random() < 0.4, "prescribed": rng.random() < 0.5, "copied": rng.choice([None] * 5 + ["solver"])}
        elif r < 0.76:
            op = {"op": "step-steady", "kind": rng.choice(["ring", "horseshoe"]), "step": rng.randrange(4)}
        else:
            k = rng.choice(["velocity", "alpha", "beta", "density", "nu", "velocity", "alpha", "refs"])
            op = {"op": "edit", "what": k, "value": edit_value(rng, k), "airplane": rng.randrange(2)}
        if op["op"] in ("steady", "unsteady") and rng.random() < 0.3:
            op["fault"] = H.gen_fault(rng, ["line", "line", "solve"])
        ops.append(op)
    if ops[-1]["op"] == "edit" or ops[-1].get("fault"):
        ops.append({"op": "steady", "kind": rng.choice(["ring", "horseshoe"]), "reuse": rng.random() < 0.6, "members": gen_members(rng, model, visitors)})
    return {"model": model, "visitors": visitors, "ops": ops}


FLOW = ["velocity", "alpha", "beta", "density", "nu"]


def gen_visitors(rng, model):
    """Airplanes that exist for one operation only: copies of the model's flying elsewhere,
    the same with other control deflections or another airfoil, and entirely different ones."""
    out = []
    for k in range(rng.choice([0, 1, 2, 2, 3])):
        where = [S.r3(rng.uniform(-1, 6)), S.r3(rng.uniform(-3, 3)), S.r3(-3.0 - 2.5 * k + rng.uniform(-0.4, 0.4))]
        if rng.random() < 0.75:
            v = S.moved(rng.choice(model["airplanes"]), 10 + k, where)
            how = rng.choice(["same", "deflected", "airfoil"])
            for w in v["wings"]:
                for s in w["sections"]:
                    if how == "deflected":
                        s["cs_defl"] = S.r3(rng.uniform(-8, 8))
                    elif how == "airfoil":
                        s["airfoil"] = (s["airfoil"] + 1) % len(S.AIRFOILS)
        else:
            for _ in range(50):
                v = S.gen_airplane(rng, 10 + k, {}, where)
                if sum(S.wing_panels(w) for w in v["wings"]) <= 12:
                    break
        out.append(v)
    return out


def gen_members(rng, model, visitors):
    """Which airplanes fly: shared ones (by number), visitors ("v0"), and airplanes made of
    some wings of a shared one ({"of": airplane, "wings": [...]})."""
    n = len(model["airplanes"])
    r = rng.random()
    if r < 0.45:
        return list(range(n))
    many = [i for i in range(n) if len(model["airplanes"][i]["wings"]) > 1]
    if many and r < 0.6:
        i = rng.choice(many)
        k = len(model["airplanes"][i]["wings"])
        out = [j for j in range(n) if j != i and rng.random() < 0.5]
        out.insert(rng.randint(0, len(out)), {"of": i, "wings": sorted(rng.sample(range(k), rng.randint(1, k)))})
        return out
    out = rng.sample(range(n), rng.randint(0 if visitors else 1, n))
    if visitors:
        guests = rng.sample(range(len(visitors)), rng.choice([0, 1, 1, 2][: 2 + 2 * (len(visitors) > 1)]))
        for g in guests or ([0] if not out else []):
            out.insert(rng.randint(0, len(out)), f"v{g}")
    return out


def make_members(members, airplanes, specs, visitors, cache):
    """(objects, specification) of the airplanes that fly."""
    objs, sp = [], []
    for m in members:
        if isinstance(m, int):
            if m >= len(airplanes):
                continue
            objs.append(airplanes[m])
            sp.append(specs[m])
        elif isinstance(m, str):
            objs.append(S.make_airplane(visitors[int(m[1:])], cache))
            sp.append(visitors[int(m[1:])])
        else:
            i = min(m["of"], len(airplanes) - 1)
            which = [k for k in m["wings"] if k < len(airplanes[i].wings)] or [0]
            d = dict(specs[i], name="part of " + specs[i]["name"], wings=[specs[i]["wings"][k] for k in which])
            for k in ("s_ref", "c_ref", "b_ref"):
                d.pop(k, None)
            objs.append(
                boot.ps.geometry.Airplane(
                    name=d["name"], x_ref=d["x_ref"], y_ref=d["y_ref"], z_ref=d["z_ref"], weight=d["weight"], wings=[airplanes[i].wings[k] for k in which]
                )
            )
            sp.append(d)
    if not objs:
        return [airplanes[0]], [specs[0]]
    return objs, sp


def edit_value(rng, k):
    return {
        "velocity": lambda: S.r3(rng.uniform(4, 30)),
        "alpha": lambda: S.r3(rng.uniform(-6, 10)),
        "beta": lambda: S.r3(rng.uniform(-6, 6)),
        "density": lambda: S.r3(rng.uniform(0.3, 2)),
        "nu": lambda: rng.choice([1e-5, 1e-3]),
        "refs": lambda: {"s_ref": S.r3(rng.uniform(1, 6)), "c_ref": S.r3(rng.uniform(0.4, 1.5)), "b_ref": S.r3(rng.uniform(2, 8))},
    }[k]()


def twin(kind, spec, kw, step, count):
    """A freshly built model's results and, if asked for, the size of its run."""
    t = S.build(spec)
    if step is None:
        ts = S.make_solver(kind, t)
    else:
        ts = S.steady_solver(kind, t.problem.steady_problems[step])
    size = (1, 1, 1)
    if count:
        _, *size = H.measure(lambda: ts.run(**kw))
    else:
        quiet(lambda: ts.run(**kw))
    return O.results(ts, kind), tuple(size)


def run(plan, ctx):
    ps = boot.ps
    pristine = H.Pristine()  # twins are built and solved where nothing else ever was
    gc.disable()  # memory is freed when the last reference goes, and between operations
    spec = copy.deepcopy(plan["model"])  # the model as it is now
    cache = {}
    airplanes = [S.make_airplane(a, cache) for a in spec["airplanes"]]
    op = S.make_op(spec["op"])
    kept = {}  # (kind, members) -> solver
    unsteady = None  # (built, solver, spec at build time)
    last = "start"
    for n, o in enumerate(plan["ops"]):
        what = f"operation {n} ({o['op']} {o.get('kind', '')})"
        ctx.state(last, o["op"], o.get("kind"), o.get("reuse"))
        last = (o["op"], o.get("kind"), o.get("what"))
        if o["op"] == "edit":
            if o["what"] == "refs":
                i = o["airplane"] % len(airplanes)
                spec["airplanes"][i].update(o["value"])
                for k, v in o["value"].items():
                    setattr(airplanes[i], k, v)
            else:
                spec["op"]["thrust" if o["what"] == "external_thrust" else o["what"]] = o["value"]
                setattr(op, o["what"], o["value"])
            ctx.count("edits")
            continue
        # What the last operation made for itself alone is gone, and its memory with it.
        objs = solver = b = out = ss = sp = point = None
        gc.collect()
        fault = o.get("fault")
        if o["op"] == "steady":
            kind = o["kind"]
            objs, now = make_members(o["members"], airplanes, spec["airplanes"], plan["visitors"], cache)
            shared = all(isinstance(m, int) for m in o["members"])
            flow, copied = o.get("flow"), o.get("copied")
            flying = dict(spec["op"], **flow) if flow else spec["op"]
            point = S.make_op(flying) if flow else op
            key = (kind, tuple(o["members"])) if shared and not flow else None
            if o["reuse"] and key in kept:
                solver = kept[key]
                if copied:
                    solver = copy.deepcopy(solver) if copied != "pickled" else pickle.loads(pickle.dumps(solver))
                    objs, point = solver.airplanes, solver.steady_problem.operating_point
            else:
                if copied == "airplanes":
                    objs = copy.deepcopy(objs)
                problem = ps.problems.SteadyProblem(airplanes=objs, operating_point=point)
                if copied == "problem":
                    problem = copy.deepcopy(problem)
                elif copied == "pickled":
                    problem = pickle.loads(pickle.dumps(problem))
                if copied:
                    objs, point = problem.airplanes, problem.operating_point
                solver = S.steady_solver(kind, problem)
                if key and not copied:
                    kept[key] = solver
                problem = None
            if not shared:
                ctx.count("solves with temporary airplanes")
            if flow:
                ctx.count("solves at another operating point object")
            if copied:
                ctx.count("solves of copies")
            ref, size = pristine.call(twin, kind, {"airplanes": now, "op": flying}, {}, None, bool(fault))
            out = H.faulty(lambda: solver.run(), fault, size, ctx)
            if out.error is None:
                R.check_steady(ctx, solver, kind, objs, point)
        elif o["op"] == "step-steady":
            if unsteady is None or unsteady[2]["only_final"]:
                continue
            kind = o["kind"]
            b, _, usp = unsteady
            k = o["step"] % len(b.problem.steady_problems)
            sp = b.problem.steady_problems[k]
            solver = S.steady_solver(kind, sp)
            ref, _ = pristine.call(twin, kind, usp, {}, k, False)
            out = H.faulty(lambda: solver.run(), None, (1, 1, 1), ctx)
            if out.error is None:
                R.check_steady(ctx, solver, kind, sp.airplanes, sp.operating_point)
            ctx.count("steps solved steadily")
        else:
            kind = "unsteady"
            if o["reuse"] and unsteady is not None:
                b, solver, usp = unsteady
            else:
                usp = copy.deepcopy(spec)
                b = S.build(usp, cache=cache, airplanes=airplanes, op=op)
                solver = S.unsteady_solver(b)
                unsteady = (b, solver, usp)
            if o.get("copied"):
                solver = copy.deepcopy(solver)
                ctx.count("solves of copies")
            kw = {"prescribed_wake": o["prescribed"], "calculate_streamlines": spec["streamlines"]}
            ref, size = pristine.call(twin, kind, usp, kw, None, bool(fault))
            out = H.faulty(lambda: solver.run(**kw), fault, size, ctx)
            ctx.sim_seconds += S.sim_time(usp)
        ctx.event("op", n, o, out.fired)
        if out.error is not None:
            H.require_fault_reached(ctx, out, what)
            ctx.state("struck", kind, out.fired)
            continue
        obs = O.results(solver, kind)
        ctx.count("solves compared")
        ctx.nontrivial = ctx.nontrivial or n > 0
        O.feed(ctx, obs, only=["circulation", "total", "final", "streamlines"])
        d = O.diff(ref, obs)
        ctx.check(not d, "depends-on-history", lambda: f"{what} after {[x['op'] for x in plan['ops'][:n]]} differs from a freshly built model's: {d}")
    pristine.close()


def quiet(fn):
    with seams.streams():
        return fn()


def shrink(plan):
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            c = copy.deepcopy(plan)
            del c["ops"][i]
            yield c
    for i, o in enumerate(plan["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(plan)
            c["ops"][i]["fault"] = None
            yield c
        for k in ("flow", "copied"):
            if o.get(k):
                c = copy.deepcopy(plan)
                c["ops"][i][k] = None
                yield c
        if o.get("members") and len(o["members"]) > 1:
            for k in range(len(o["members"])):
                c = copy.deepcopy(plan)
                del c["ops"][i]["members"][k]
                yield c
    for m in S.shrink_model(plan["model"]):
        c = copy.deepcopy(plan)
        c["model"] = m
        yield c
