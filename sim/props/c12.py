"""C12: every time step's airplane is the base airplane in its prescribed position."""

import copy
import math

import numpy as np

from .. import boot
from .. import harness as H
from .. import observe as O
from .. import seams
from .. import spec as S

ID = "C12"
RUNS = {"quick": 700, "thorough": 20000}
RULE = (
    "A case is a random base model and motion (symmetric, left-going, vertical and tilted wings; sine, "
    "uniform and custom waveforms; given reference dimensions) and a random sequence of generations "
    "(whole movements with given or defaulted step counts, single airplanes, problems that are then "
    "solved, generations cut short by a fault) and edits of base or generated objects. Every generated "
    "object is compared with one built directly at the position an independent kinematic model gives; "
    "after every edit all other objects must be as they were. Non-trivial: at least one moving "
    "generation; cases are distinct if their event logs differ."
)
STATE_MEASURE = "distinct (previous operation, operation, edited attribute, fault type, function struck)"
REAL = ["movement", "geometry", "meshing", "problems", "unsteady solver"]
STUB = ["clock and streams (simulated) while solving"]
ASSUMPTIONS = [
    "Airfoils and direction vectors are shared between steps by design and are not edited.",
    "A custom waveform is called with an array of angles and returns an array.",
]

BASE_EDITS = ["airplane.name", "airplane.weight", "section.chord", "section.cs_defl", "section.nspan", "op.density", "op.alpha", "op.nu", "op.thrust", "wing.name"]
STEP_EDITS = [
    "airplane.name",
    "airplane.weight",
    "airplane.s_ref",
    "airplane.x_ref",
    "airplane.xyz_ref[]",
    "wing.name",
    "wing.x_le",
    "wing.leading_edge[]",
    "wing.symmetric",
    "section.chord",
    "section.twist",
    "section.x_le",
    "section.leading_edge[]",
    "panel.front_right_vertex[]",
    "op.velocity",
    "op.density",
    "op.nu",
]


def gen(rng, i, tier):
    m = S.gen_model(rng, steps=(2, 12 if tier == "quick" else 40), max_panels=20, move_prob=0.75, static_prob=0.12, op_move=0.4)
    if rng.random() < 0.04:
        m = S.gen_model(rng, steps=(30, 120), max_panels=4, max_airplanes=1, multi_wing=False, move_prob=0.75, static_prob=0.12, op_move=0.4)
    for a in m["airplanes"]:
        for w in a["wings"]:
            if not w["sym"] and w["normal"] == [0.0, 1.0, 0.0] and rng.random() < 0.15:
                for s in w["sections"]:
                    s["y"] = -s["y"]
            if w["normal"] == [0.0, 1.0, 0.0]:
                for s in w["sections"][1:]:
                    if rng.random() < 0.15:
                        t = rng.uniform(-0.3, 0.3)
                        s["normal"] = [0.0, math.cos(t), math.sin(t)]
                # Winglets: sections that go up much more than they go out.
                if rng.random() < 0.12:
                    t = rng.choice([1.45, 1.52, 1.55, -1.5])
                    k = rng.randrange(1, len(w["sections"]))
                    dy = w["sections"][k]["y"] - w["sections"][k - 1]["y"]
                    for s in w["sections"][k:]:
                        s["y"] -= dy * (1 - math.cos(t))
                        s["z"] += dy * math.sin(t)
    ops = [gen_generate(rng, m)]
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.3:
            ops.append(gen_generate(rng, m))
        elif r < 0.45:
            ops.append({"op": "airplanes", "which": rng.randrange(8), "steps": rng.randint(1, 9), "dt": rng.uniform(0.003, 0.2), "fault": gen_fault(rng)})
        elif r < 0.55:
            ops.append({"op": "problem", "which": rng.randrange(8), "only_final": rng.random() < 0.4, "solve": rng.random() < 0.5})
        elif r < 0.7:
            ops.append({"op": "edit-base", "what": rng.choice(BASE_EDITS), "pick": [rng.randrange(8) for _ in range(3)], "value": S.r3(rng.uniform(0.5, 3.0))})
        else:
            ops.append(
                {
                    "op": "edit-step",
                    "which": rng.randrange(8),
                    "what": rng.choice(STEP_EDITS),
                    "step": rng.randrange(64),
                    "pick": [rng.randrange(8) for _ in range(4)],
                    "value": S.r3(rng.uniform(0.5, 3.0)),
                }
            )
    return {"model": m, "ops": ops}


def gen_fault(rng):
    return H.gen_fault(rng, ["line"]) if rng.random() < 0.3 else None


def gen_generate(rng, m):
    o = {"op": "generate", "fault": gen_fault(rng), "steps": m["steps"], "dt": m["dt"], "cycles": None, "chords": None}
    r = rng.random()
    if r < 0.5:
        o["steps"] = rng.randint(1, m["steps"])
        o["dt"] = m["dt"] * rng.choice([1, 1, 0.37, 2.0])
    elif r < 0.6:
        o["steps"] = None
        if S.is_static(m):
            o["chords"] = rng.choice([1, 2])
        elif S.max_period(m) < 15 * m["dt"]:
            o["cycles"] = 1
        else:
            o["steps"] = m["steps"]
    elif r < 0.65:
        o["dt"] = None
    return o


def wave(d, base, t):
    if d is None or d["a"] == 0 or d["p"] == 0:
        return base
    th = 2 * math.pi * t / d["p"]
    if d["s"] == "sine":
        return base + d["a"] * math.sin(th)
    if d["s"] == "uniform":
        return base + d["a"] * 2 / math.pi * math.asin(max(-1.0, min(1.0, math.sin(th))))
    return base + d["a"] * float(S.CUSTOM[d["f"]](np.array([th]))[0])


def step_spec(a, mv, t):
    """The specification of airplane `a` at time t (independent kinematics)."""
    a = copy.deepcopy(a)
    for k in ("x_ref", "y_ref", "z_ref"):
        a[k] = wave(mv[k], a[k], t)
    for w, wd in zip(a["wings"], mv["wings"]):
        for k in "xyz":
            w[k] = wave(wd[k], w[k], t)
        base = [(s["x"], s["y"], s["z"]) for s in w["sections"]]
        pos = [(0.0, 0.0, 0.0)]
        w["sections"][0]["twist"] = wave(wd["sections"][0]["pitch"], w["sections"][0]["twist"], t)
        for n in range(1, len(base)):
            s, sd = w["sections"][n], wd["sections"][n]
            dx, dy, dz = (p - q for p, q in zip(base[n], base[n - 1]))
            if dy == 0:
                pos.append(base[n])
            else:
                length = math.sqrt(dx * dx + dy * dy + dz * dz)
                up = math.radians(wave(sd["sweep"], math.degrees(math.asin(dz / length)), t))
                fore = math.radians(wave(sd["heave"], math.degrees(math.atan2(dx, dy)), t))
                q = pos[-1]
                pos.append(
                    (
                        q[0] + length * math.cos(up) * math.sin(fore),
                        q[1] + length * math.cos(up) * math.cos(fore),
                        q[2] + length * math.sin(up),
                    )
                )
                s["twist"] = wave(sd["pitch"], s["twist"], t)
            s["x"], s["y"], s["z"] = pos[-1]
    return a


def record(a):
    d = O.airplane_params(a)
    d["panels"] = O.panel_geometry(a)
    return d


def near(x, y, atol=5e-7):
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        return x.shape == y.shape and bool(np.all(np.abs(x - y) <= atol * (1.0 + np.abs(x))))
    return type(x) == type(y) and x == y


def compare(ctx, got, want, what):
    for k in want:
        ctx.check(k in got and near(got[k], want[k]), "wrong-snapshot", lambda: f"{what}: {k} is {got.get(k)} and should be {want[k]}")
    ctx.check(set(got) == set(want), "wrong-snapshot", lambda: f"{what}: has other parts: {sorted(set(got) ^ set(want))[:3]}")


def check_airplanes(ctx, airplanes, spec, mv, n, dt, cache, what):
    ctx.check(len(airplanes) == n, "wrong-count", f"{what}: {len(airplanes)} airplanes for {n} steps")
    for k, a in enumerate(airplanes):
        want = S.make_airplane(step_spec(spec, mv, k * dt), cache)
        compare(ctx, record(a), record(want), f"{what}, step {k}")
        ctx.count("snapshots compared")
        ctx.check(
            all(getattr(a, t) is None for t in O.TOTALS), "stale-result", f"{what}, step {k}: the new airplane already has loads"
        )
        for p in O.panels_of(a):
            ctx.check(p.ring_vortex is None and p.near_field_force_wind_axes is None, "stale-result", f"{what}, step {k}: a new panel has results")


def check_ops(ctx, ops, spec, n, dt, what):
    ctx.check(len(ops) == n, "wrong-count", f"{what}: {len(ops)} operating points for {n} steps")
    for k, op in enumerate(ops):
        o = dict(spec["op"])
        o["velocity"] = wave(spec.get("op_move"), o["velocity"], k * dt)
        compare(ctx, O.op_params(op), O.op_params(S.make_op(o)), f"{what}, operating point {k}")


class World:
    """All objects whose state must stay put, with the state they must have."""

    def __init__(self, airplanes, op):
        self.airplanes, self.op = airplanes, op
        self.gens = []  # each: {"airplanes": [[...]], "ops": [...], ...}
        self.base = None
        self.refresh_base()

    def refresh_base(self):
        self.base = [record(a) for a in self.airplanes] + [O.op_params(self.op)]

    def add(self, airplanes, ops, **info):
        g = dict(airplanes=airplanes, ops=ops, **info)
        g["want"] = [[record(a) for a in lst] for lst in airplanes]
        g["want_ops"] = [O.op_params(o) for o in ops]
        self.gens.append(g)
        return g

    def verify(self, ctx, what):
        now = [record(a) for a in self.airplanes] + [O.op_params(self.op)]
        for w, g in zip(self.base, now):
            d = O.diff(w, g, rtol=0.0)
            ctx.check(not d, "base-altered", lambda: f"{what}: the base object changed: {d}")
        for n, g in enumerate(self.gens):
            for i, lst in enumerate(g["airplanes"]):
                for k, a in enumerate(lst):
                    d = O.diff(g["want"][i][k], record(a), rtol=0.0)
                    ctx.check(not d, "snapshot-altered", lambda: f"{what}: airplane {i} at step {k} of generation {n} changed: {d}")
            for k, o in enumerate(g["ops"]):
                d = O.diff(g["want_ops"][k], O.op_params(o), rtol=0.0)
                ctx.check(not d, "snapshot-altered", lambda: f"{what}: operating point {k} of generation {n} changed: {d}")


def run(plan, ctx):
    ps = boot.ps
    spec = copy.deepcopy(plan["model"])
    cache, twin_cache = {}, {}
    airplanes = [S.make_airplane(a, cache) for a in spec["airplanes"]]
    op = S.make_op(spec["op"])
    world = World(airplanes, op)
    last = "start"
    for n, o in enumerate(plan["ops"]):
        what = f"operation {n} ({o['op']})"
        fired = None
        if o["op"] == "generate":
            ms = dict(spec, steps=o["steps"], dt=o["dt"], cycles=o["cycles"], chords=o["chords"])
            fired, mov = attempt(ctx, o["fault"], lambda: S.make_movement(ms, airplanes, op), what)
            if mov is not None:
                check_movement(ctx, mov, ms, airplanes, twin_cache, what)
                world.add(mov.airplanes, mov.operating_points, movement=mov, spec=copy.deepcopy(ms))
                ctx.count("movements generated")
                ctx.nontrivial = ctx.nontrivial or not S.is_static(spec)
        elif o["op"] == "airplanes":
            i = o["which"] % len(airplanes)
            am = S.make_airplane_movement(spec["movement"][i], airplanes[i])
            fired, lst = attempt(ctx, o["fault"], lambda: am.generate_airplanes(num_steps=o["steps"], delta_time=o["dt"]), what)
            if fired is not None:
                lst = am.generate_airplanes(num_steps=o["steps"], delta_time=o["dt"])
            if lst is not None:
                check_airplanes(ctx, lst, spec["airplanes"][i], spec["movement"][i], o["steps"], o["dt"], twin_cache, what)
                again = am.generate_airplanes(num_steps=o["steps"], delta_time=o["dt"])
                for k, (x, y) in enumerate(zip(lst, again)):
                    d = O.diff(record(x), record(y), rtol=0.0)
                    ctx.check(not d and x is not y, "generation-not-repeatable", lambda: f"{what}: step {k} differs when generated again: {d}")
                world.add([lst, again], [])
        elif o["op"] == "problem":
            gens = [g for g in world.gens if g.get("movement") is not None]
            if not gens:
                continue
            g = gens[o["which"] % len(gens)]
            do_problem(ctx, g, o, what)
        elif o["op"] == "edit-base":
            edit_base(spec, airplanes, op, o)
            world.refresh_base()
        else:
            if not world.gens:
                continue
            edit_step(world, o)
        ctx.event("op", n, o["op"], o.get("what"), fired)
        ctx.state(last, o["op"], o.get("what"), (o.get("fault") or {}).get("type"), fired)
        last = o["op"]
        world.verify(ctx, what)
    for g in world.gens:
        for lst in g["want"]:
            for d in lst:
                ctx.event(d["panels"], d["xyz_ref"])


def attempt(ctx, fault, fn, what):
    """(where the fault struck, value or None)"""
    if fault is None:
        return None, fn()
    _, lines, calls, solves = H.measure(fn)
    out = H.faulty(fn, fault, (lines, calls, solves), ctx)
    if out.error is not None:
        H.require_fault_reached(ctx, out, what)
        return out.fired, None
    return None, out.value


def ceilings(x):
    r = {math.ceil(x)}
    if abs(x - round(x)) < 1e-6:
        r |= {round(x), round(x) + 1}
    return r


def check_movement(ctx, mov, ms, airplanes, cache, what):
    dt, n = mov.delta_time, mov.num_steps
    v = ms["op"]["velocity"]
    if ms["dt"] is not None:
        ctx.check(dt == ms["dt"], "wrong-time-step", f"{what}: the time step is {dt}, not the given {ms['dt']}")
    else:
        want = sum(a.c_ref / a.wings[0].num_chordwise_panels / v for a in airplanes) / len(airplanes)
        ctx.check(abs(dt - want) <= 1e-9 * want, "wrong-time-step", f"{what}: the default time step is {dt}, not {want}")
    if ms["steps"] is not None:
        ctx.check(n == ms["steps"], "wrong-count", f"{what}: {n} steps, not the given {ms['steps']}")
    elif S.is_static(ms):
        ok = ceilings(ms["chords"] * max(a.c_ref for a in airplanes) / (dt * v))
        ctx.check(n in ok, "wrong-count", f"{what}: {n} steps for {ms['chords']} chords, not {ok}")
    else:
        ok = ceilings(ms["cycles"] * S.max_period(ms) / dt)
        ctx.check(n in ok, "wrong-count", f"{what}: {n} steps for {ms['cycles']} cycles, not {ok}")
    ctx.check(abs(mov.get_max_period() - S.max_period(ms)) < 1e-12, "wrong-period", f"{what}: longest period {mov.get_max_period()}")
    ctx.check(len(mov.airplanes) == len(airplanes), "wrong-count", f"{what}: {len(mov.airplanes)} airplanes")
    for i, lst in enumerate(mov.airplanes):
        check_airplanes(ctx, lst, ms["airplanes"][i], ms["movement"][i], n, dt, cache, f"{what}, airplane {i}")
    check_ops(ctx, mov.operating_points, ms, n, dt, what)


def do_problem(ctx, g, o, what):
    ps = boot.ps
    mov = g["movement"]
    problem = ps.problems.UnsteadyProblem(movement=mov, only_final_results=o["only_final"])
    ctx.check(len(problem.steady_problems) == mov.num_steps, "wrong-count", f"{what}: {len(problem.steady_problems)} steady problems")
    for k, sp in enumerate(problem.steady_problems):
        ctx.check(
            sp.operating_point is mov.operating_points[k]
            and len(sp.airplanes) == len(mov.airplanes)
            and all(a is lst[k] for a, lst in zip(sp.airplanes, mov.airplanes)),
            "wrong-step-objects",
            f"{what}: step {k} of the problem does not hold the movement's objects of that step",
        )
    if o["solve"] and not g.get("edited") and mov.num_steps <= 8 and mov.num_steps > 1:
        solver = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(problem)
        with seams.streams(), seams.SimClock("tick").installed():
            solver.run(calculate_streamlines=False, logging_level="Warning")
        ctx.count("movements solved")


def pick(lst, i):
    return lst[i % len(lst)]


def edit_base(spec, airplanes, op, o):
    kind, name = o["what"].split(".")
    v = o["value"]
    a, sa = pick(airplanes, o["pick"][0]), pick(spec["airplanes"], o["pick"][0])
    w, sw = pick(a.wings, o["pick"][1]), pick(sa["wings"], o["pick"][1])
    s, ss = pick(w.wing_cross_sections, o["pick"][2]), pick(sw["sections"], o["pick"][2])
    if name == "name":
        (sa if kind == "airplane" else sw)["name"] = f"renamed {v}"
        (a if kind == "airplane" else w).name = f"renamed {v}"
    elif kind == "airplane":
        a.weight = sa["weight"] = v
    elif name == "chord":
        s.chord = ss["chord"] = v
    elif name == "cs_defl":
        s.control_surface_deflection = ss["cs_defl"] = v
    elif name == "nspan":
        s.num_spanwise_panels = ss["nspan"] = 1 + int(v) % 3
    elif name == "thrust":
        op.external_thrust = spec["op"]["thrust"] = v
    else:
        setattr(op, name, v)
        spec["op"][name] = v


def edit_step(world, o):
    g = pick(world.gens, o["which"])
    g["edited"] = True
    kind, name = o["what"].split(".")
    v = o["value"]
    if kind == "op":
        if not g["ops"]:
            return
        k = o["step"] % len(g["ops"])
        setattr(g["ops"][k], name, v)
        g["want_ops"][k] = O.op_params(g["ops"][k])
        return
    i = o["pick"][0] % len(g["airplanes"])
    k = o["step"] % len(g["airplanes"][i])
    a = g["airplanes"][i][k]
    w = pick(a.wings, o["pick"][1])
    t = {
        "airplane": a,
        "wing": w,
        "section": pick(w.wing_cross_sections, o["pick"][2]),
        "panel": np.ravel(w.panels)[o["pick"][3] % w.panels.size],
    }[kind]
    if name.endswith("[]"):
        getattr(t, name[:-2])[:] += v
    elif name == "name":
        t.name = f"renamed {v}"
    elif name == "symmetric":
        t.symmetric = not t.symmetric
    else:
        setattr(t, name, v)
    g["want"][i][k] = record(a)


def shrink(plan):
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            c = copy.deepcopy(plan)
            del c["ops"][i]
            yield c
    for m in S.shrink_model(plan["model"]):
        c = copy.deepcopy(plan)
        c["model"] = m
        yield c
    for i, o in enumerate(plan["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(plan)
            c["ops"][i]["fault"] = None
            yield c
        if o.get("steps") and o["steps"] > 1:
            c = copy.deepcopy(plan)
            c["ops"][i]["steps"] = o["steps"] // 2
            yield c
