"""C15: a built model is the described one, whatever was built, shared, read or failed before."""

import copy
import math

import numpy as np

from .. import boot, core
from .. import harness as H
from .. import refgeom as G
from .. import seams
from .. import spec as S

ID = "C15"
RUNS = {"quick": 500, "thorough": 20000}
RULE = (
    "A case is a random sequence of 6-16 constructions of airfoils (generated, database, user "
    "coordinates), cross sections, wings and airplanes from a shared pool of earlier parts, cut short "
    "by faults at random executed lines and retried, mixed with refused constructions, reads of derived "
    "properties, edits of cross sections, writes into returned airfoils and solves. After every "
    "operation every object of the pool is compared with an independent geometric reference. "
    "Non-trivial: some wing or airplane was built from a part used before; distinct by event log."
)
STATE_MEASURE = "distinct (previous operation, operation, detail, fault type, function struck)"
REAL = ["geometry", "meshing", "panel", "functions", "scipy interpolation", "steady ring solver (between constructions)"]
STUB = ["pyplot's show (does nothing)", "streams (simulated) while solving"]
ASSUMPTIONS = [
    "Cross sections are shared only between wings with the same chordwise direction (a section has one).",
    "The outer end of a wing section has the inner cross section's control surface, so neighbouring sections with different deflections leave a step.",
]

DATABASE = ["e197", "s1223", "clarky", "naca0012", "goe795"]
EDITS = ["twist", "chord", "cs_defl", "cs_hinge", "cs_type", "nspan", "sspace", "airfoil", "place", "place", "normal"]
READS = ["camber", "sample", "flap", "outline", "draw", "section", "wing", "wing", "panel", "panel"]
INVALID = ["no-wings", "one-section", "chord", "chordwise-spacing", "spanwise-spacing", "root-offset", "plane", "surface-type", "foil-name", "deflection"]
TOL = 1e-9


def gen_foil(rng):
    r = rng.random()
    if r < 0.45:
        m = rng.choice([0, 0, 1, 2, 4, 6])
        p = rng.choice([2, 3, 4, 5, 6]) if m else 0
        name = f"naca{m}{p}{rng.choice(['06', '08', '12', '15', '18'])}"
        return {"kind": "naca", "name": rng.choice([name, name.upper(), " " + name]), "repanel": True, "n": rng.choice([20, 31, 50])}
    if r < 0.75:
        return {"kind": "dat", "name": rng.choice(DATABASE), "repanel": True, "n": rng.choice([20, 40, 41])}
    return {
        "kind": "user",
        "name": "mine",
        "points": rng.choice([15, 24]),
        "camber": S.r3(rng.uniform(-0.05, 0.08)),
        "thick": S.r3(rng.uniform(0.05, 0.2)),
        "repanel": rng.random() < 0.4,
        "n": 25,
    }


def gen_section(rng, n_foils, family, root, tilt):
    y = 0.0 if root else S.r3(rng.uniform(0.5, 4.5))
    d = 0.0 if root else S.r3(rng.choice([0.0, rng.uniform(-0.5, 0.8)]))
    x = 0.0 if root else S.r3(rng.uniform(-0.4, 0.8))
    normal = [0.0, 1.0, 0.0]
    if family == "v":
        normal = [0.0, 0.0, 1.0]
        y, d = d * 0.0, y
    elif tilt and not root and rng.random() < 0.3:
        t = rng.uniform(-0.5, 0.5)
        normal = [0.0, math.cos(t), math.sin(t)]
    return {
        "x": x,
        "y": y,
        "z": d,
        "chord": S.r3(rng.choice([1.0, rng.uniform(0.4, 1.8), rng.uniform(0.4, 1.8)])),
        "twist": S.r3(rng.choice([0.0, 3.0, rng.uniform(-8, 8)])),
        "airfoil": rng.randrange(n_foils),
        "cs_type": rng.choice(["symmetric", "asymmetric"]),
        "cs_hinge": S.r3(rng.choice([0.75, 0.75, rng.uniform(0.5, 0.9)])),
        "cs_defl": S.r3(rng.choice([0.0, 10.0, 10.0, -10.0, rng.uniform(-20, 20)])),
        "nspan": rng.choice([1, 2, 3, 4]),
        "sspace": rng.choice(["cosine", "uniform"]),
        "normal": normal,
        "family": family,
        "root": root,
    }


def gen(rng, i, tier):
    nf = rng.randint(1, 3)
    inc = rng.random() < 0.2  # wings whose chordwise direction is not the x axis
    t = rng.uniform(-0.2, 0.2)
    chordwise = {"h": [math.cos(t), 0.0, math.sin(t)] if inc else [1.0, 0.0, 0.0], "v": [1.0, 0.0, 0.0]}
    ops = [{"op": "airfoil", "spec": gen_foil(rng), "fault": gen_fault(rng)} for _ in range(nf)]
    fams = ["h"] if rng.random() < 0.7 else ["h", "v"]
    for f in fams:
        ops.append({"op": "section", "spec": gen_section(rng, nf, f, True, not inc), "fault": gen_fault(rng)})
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops.append({"op": "section", "spec": gen_section(rng, nf, f, False, not inc), "fault": gen_fault(rng)})
    ops.append(gen_wing(rng, fams))
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.30:
            ops.append(gen_wing(rng, fams))
        elif r < 0.45:
            o = {
                "op": "airplane",
                "wings": [rng.randrange(8) for _ in range(rng.choice([1, 1, 2]))],
                "ref": [S.r3(rng.uniform(-1, 1)) for _ in range(3)],
                "weight": S.r3(rng.uniform(0, 100)),
                "fault": gen_fault(rng),
            }
            for k in ("s_ref", "c_ref", "b_ref"):
                o[k] = S.r3(rng.uniform(0.5, 5)) if rng.random() < 0.3 else None
            ops.append(o)
        elif r < 0.60:
            k = rng.choice(EDITS)
            v = {
                "twist": lambda: S.r3(rng.uniform(-8, 8)),
                "chord": lambda: S.r3(rng.uniform(0.4, 1.8)),
                "cs_defl": lambda: S.r3(rng.uniform(-20, 20)),
                "cs_hinge": lambda: S.r3(rng.uniform(0.5, 0.9)),
                "cs_type": lambda: rng.choice(["symmetric", "asymmetric"]),
                "nspan": lambda: rng.choice([1, 2, 3]),
                "sspace": lambda: rng.choice(["cosine", "uniform"]),
                "airfoil": lambda: rng.randrange(8),
                # along x, up (or sideways), outwards; and which attributes are assigned
                "place": lambda: [S.r3(rng.uniform(-0.4, 0.8)), S.r3(rng.uniform(-0.5, 0.8)), S.r3(rng.uniform(-0.02, 0.02)), rng.choice(["both", "in place", "array only"])],
                "normal": lambda: S.r3(rng.uniform(-0.5, 0.5)),
            }[k]()
            ops.append({"op": "edit", "what": k, "value": v, "which": rng.randrange(8)})
        elif r < 0.75:
            ops.append({"op": "read", "what": rng.choice(READS), "which": rng.randrange(8), "x": S.r3(rng.uniform(0.1, 0.9)), "v": S.r3(rng.uniform(-25, 25)), "scribble": rng.random() < 0.5, "fault": gen_fault(rng)})
        elif r < 0.87:
            ops.append({"op": "invalid", "what": rng.choice(INVALID), "which": rng.randrange(8)})
        elif r < 0.93:
            ops.append({"op": "solve", "which": rng.randrange(8)})
        else:
            ops.append({"op": "airfoil", "spec": gen_foil(rng), "fault": gen_fault(rng)})
    ops.append(gen_wing(rng, fams))
    return {"chordwise": chordwise, "ops": ops}


def gen_wing(rng, fams):
    f = rng.choice(fams)
    return {
        "op": "wing",
        "family": f,
        "root": rng.randrange(8),
        "outer": [rng.randrange(8) for _ in range(rng.choice([1, 1, 2, 3]))],
        "x": S.r3(rng.uniform(-2, 2)),
        "y": S.r3(rng.choice([0.0, rng.uniform(-1, 1)])),
        "z": S.r3(rng.uniform(-1, 1)),
        "sym": rng.random() < 0.6,
        "nchord": rng.choice([1, 2, 3, 5]),
        "cspace": rng.choice(["cosine", "uniform"]),
        "fault": gen_fault(rng),
    }


def gen_fault(rng):
    return H.gen_fault(rng, ["line"]) if rng.random() < 0.25 else None


# ------------------------------------------------------------------ the pool


class Pool:
    def __init__(self, chordwise):
        self.chordwise = chordwise
        self.foils, self.foil_refs, self.given = [], [], []
        self.sections, self.section_specs, self.placed = [], [], []
        self.wings, self.wing_specs, self.corners, self.wing_sections = [], [], [], []
        self.airplanes, self.airplane_want, self.airplane_wings = [], [], []

    # -- expectations of the pool's objects as they must be now

    def verify(self, ctx, what):
        for i, (a, f, g) in enumerate(zip(self.foils, self.foil_refs, self.given)):
            check_foil(ctx, a, f, f"{what}: airfoil {i}")
            if g is not None:
                ctx.check(np.array_equal(g[0], g[1]), "input-changed", lambda: f"{what}: the coordinates given to airfoil {i} were changed")
        for i, (s, d) in enumerate(zip(self.sections, self.section_specs)):
            check_section(ctx, s, d, self, i, f"{what}: cross section {i}")
        for i in range(len(self.wings)):
            self.check_wing(ctx, i, f"{what}: wing {i}")
        for i, (a, want) in enumerate(zip(self.airplanes, self.airplane_want)):
            got = airplane_record(a)
            for k, v in want.items():
                ctx.check(np.shape(got[k]) == np.shape(v) and near(got[k], v), "airplane", lambda: f"{what}: airplane {i}'s {k} is {got[k]}, not {v}")
            ctx.check(
                len(a.wings) == len(self.airplane_wings[i]) and all(x is y for x, y in zip(a.wings, self.airplane_wings[i])),
                "airplane",
                lambda: f"{what}: airplane {i} does not have the wings it was given",
            )

    def check_wing(self, ctx, i, what, deep=False):
        w, d, c, secs = self.wings[i], self.wing_specs[i], self.corners[i], self.wing_sections[i]
        ctx.check(w.panels is not None and np.shape(w.panels) == c.shape[:2], "panel-layout", lambda: f"{what} has panels of shape {np.shape(w.panels)}, not {c.shape[:2]}")
        got = corners_of(w)
        ctx.check(near(got, c), "panel-corners", lambda: f"{what}'s panels are off the described surface by up to {np.abs(got - c).max():.3e}")
        ctx.check(
            (w.num_chordwise_panels, w.num_spanwise_panels, w.num_panels) == (c.shape[0], c.shape[1], c.shape[0] * c.shape[1]),
            "panel-count",
            lambda: f"{what} says it has {w.num_chordwise_panels} x {w.num_spanwise_panels} = {w.num_panels} panels, has {c.shape[:2]}",
        )
        ctx.check(near(w.leading_edge, [d["x"], d["y"], d["z"]]) and near([w.x_le, w.y_le, w.z_le], [d["x"], d["y"], d["z"]]), "wing", lambda: f"{what} moved to {w.leading_edge}")
        ctx.check(len(w.wing_cross_sections) == len(secs) and all(a is self.sections[k] for a, k in zip(w.wing_cross_sections, secs)), "wing", lambda: f"{what} does not have the cross sections it was given")
        for (r, k), p in np.ndenumerate(w.panels):
            flags = (p.is_leading_edge, p.is_trailing_edge, p.is_left_edge, p.is_right_edge, p.local_chordwise_position, p.local_spanwise_position)
            want = (r == 0, r == c.shape[0] - 1, k == 0, k == c.shape[1] - 1, r, k)
            ctx.check(all(bool(x) == y for x, y in zip(flags[:4], want[:4])) and tuple(int(x) for x in flags[4:]) == want[4:], "panel-flags", lambda: f"{what}'s panel ({r}, {k}) has flags and position {flags}, not {want}")
        ctx.check(
            np.shape(w.wake_ring_vortices)[0] == 0 and np.shape(w.wake_ring_vortex_vertices)[0] == 0,
            "wake",
            lambda: f"{what} was given a wake",
        )
        if deep:
            for (r, k), p in np.ndenumerate(w.panels):
                check_panel(ctx, p, c[r, k], f"{what}'s panel ({r}, {k})")

    def derived(self, ctx, i, what):
        """A wing's derived measures follow from its panels and its cross sections."""
        w, d, c = self.wings[i], self.wing_specs[i], self.corners[i]
        secs = [self.section_specs[k] for k in self.wing_sections[i]]
        up = G.up_vector(d)
        pa, sp = G.projected_area(c, up), G.span(d, secs)
        for name, got, want in (
            ("unit_up_vector", w.unit_up_vector, up),
            ("projected_area", w.projected_area, pa),
            ("wetted_area", w.wetted_area, G.wetted_area(c)),
            ("span", w.span, sp),
            ("standard_mean_chord", w.standard_mean_chord, pa / sp),
            ("mean_aerodynamic_chord", w.mean_aerodynamic_chord, G.mean_chord(d, secs, c)),
        ):
            ctx.check(np.shape(got) == np.shape(want) and near(got, want), "wing-measure", lambda: f"{what}: wing {i}'s {name} is {got}, not {want}")


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= TOL * max(1.0, float(np.abs(b).max()) if b.size else 1.0)))


def corners_of(w):
    out = np.empty(np.shape(w.panels) + (4, 3))
    for (r, k), p in np.ndenumerate(w.panels):
        out[r, k] = [p.front_left_vertex, p.front_right_vertex, p.back_left_vertex, p.back_right_vertex]
    return out


def check_panel(ctx, p, c, what):
    fl, fr, bl, br = c
    n = np.cross(fr - bl, fl - br)
    a = np.linalg.norm(n)
    front, back = fr - fl, br - bl
    for name, got, want in (
        ("area", p.area, a / 2),
        ("unit normal", p.unit_normal, n / a),
        ("collocation point", p.collocation_point, 0.5 * (0.25 * fl + 0.75 * bl + 0.25 * fr + 0.75 * br)),
        ("front left vortex point", p.front_left_vortex_vertex, 0.75 * fl + 0.25 * bl),
        ("front right vortex point", p.front_right_vortex_vertex, 0.75 * fr + 0.25 * br),
        ("average span", p.average_span, (np.linalg.norm(front) + np.linalg.norm(back)) / 2),
        ("average chord", p.average_chord, (np.linalg.norm(fr - br) + np.linalg.norm(fl - bl)) / 2),
        ("spanwise direction", p.unit_spanwise, (front + back) / np.linalg.norm(front + back)),
        ("chordwise direction", p.unit_chordwise, (br - fr + bl - fl) / np.linalg.norm(br - fr + bl - fl)),
    ):
        ctx.check(np.shape(got) == np.shape(want) and bool(np.all(np.abs(got - want) <= 1e-7 * max(1.0, float(np.abs(want).max())))), "panel-measure", lambda: f"{what}: {name} is {got}, not {want}")


def check_foil(ctx, a, f, what):
    for name, got, want in (
        ("coordinates", a.coordinates, f.coordinates),
        ("mean camber line", a.mcl_coordinates, f.mcl),
        ("half thickness", a.upper_minus_mcl, f.half),
        ("thickness", a.thickness, f.thickness),
    ):
        ctx.check(np.shape(got) == np.shape(want) and near(got, want), "airfoil", lambda: f"{what}'s {name} is off the described outline")


SECTION = {"x": "x_le", "y": "y_le", "z": "z_le", "chord": "chord", "twist": "twist", "cs_type": "control_surface_type", "cs_hinge": "control_surface_hinge_point", "cs_defl": "control_surface_deflection", "nspan": "num_spanwise_panels", "sspace": "spanwise_spacing"}


def check_section(ctx, s, d, pool, i, what):
    for k, name in SECTION.items():
        v = d.get("attributes", d)[k] if k in "xyz" else d[k]
        ctx.check(getattr(s, name) == v, "section", lambda: f"{what}'s {name} is {getattr(s, name)!r}, not {v!r}")
    ctx.check(s.airfoil is pool.foils[d["airfoil"]], "section", lambda: f"{what} has another airfoil")
    ctx.check(near(s.unit_normal_vector, d["normal"]), "section", lambda: f"{what}'s normal changed to {s.unit_normal_vector}")
    le = np.array([d["x"], d["y"], d["z"]])
    ctx.check(near(s.leading_edge, le), "section", lambda: f"{what}'s leading edge is {s.leading_edge}")
    if pool.placed[i]:
        c = G.chordwise_vector(d, pool.chordwise[d["family"]])
        for name, got, want in (
            ("chordwise direction", s.unit_chordwise_vector, c),
            ("up direction", s.unit_up_vector, np.cross(c, d["normal"])),
            ("trailing edge", s.trailing_edge, le + d["chord"] * c),
        ):
            ctx.check(near(got, want), "section", lambda: f"{what}'s {name} is {got}, not {want}")


def airplane_record(a):
    return {"s_ref": a.s_ref, "c_ref": a.c_ref, "b_ref": a.b_ref, "num_panels": a.num_panels, "weight": a.weight, "xyz_ref": a.xyz_ref}


# ------------------------------------------------------------------ operations


def run(plan, ctx):
    ps = boot.ps
    pool = Pool(plan["chordwise"])
    last = "start"
    for n, o in enumerate(plan["ops"]):
        what = f"operation {n} ({o['op']})"
        fired = OPS[o["op"]](ps, pool, o, ctx, what)
        if fired == "skipped":
            continue
        ctx.event("op", n, o["op"], o.get("what"), fired)
        ctx.state(last, o["op"], o.get("what"), (o.get("fault") or {}).get("type"), fired)
        last = o["op"]
        pool.verify(ctx, what)
    for c in pool.corners:
        ctx.event(c)
    for i in range(len(pool.wings)):
        pool.check_wing(ctx, i, f"at the end: wing {i}", deep=True)
        pool.derived(ctx, i, "at the end")


def attempt(ctx, fault, fn, what, pool):
    """Run fn under the fault, then (if it struck) verify and run it again without."""
    if fault is None:
        return None, fn()
    _, lines, calls, solves = H.measure(fn)
    out = H.faulty(fn, fault, (lines, calls, solves), ctx)
    if out.error is None:
        return None, out.value
    H.require_fault_reached(ctx, out, what)
    ctx.count("constructions cut short")
    pool.verify(ctx, what + ", cut short")
    return out.fired, fn()


def op_airfoil(ps, pool, o, ctx, what):
    d = o["spec"]
    kw = {"name": d["name"], "repanel": d["repanel"], "n_points_per_side": d["n"]}
    given = None
    if d["kind"] == "user":
        c = G.user(d)
        kw["coordinates"] = c
        given = (c, c.copy())
    fired, a = attempt(ctx, o["fault"], lambda: ps.geometry.Airfoil(**kw), what, pool)
    pool.foils.append(a)
    pool.foil_refs.append(G.Foil(d))
    pool.given.append(given)
    return fired


def section_kwargs(pool, d):
    kw = {SECTION[k]: d[k] for k in SECTION}
    kw["airfoil"] = pool.foils[d["airfoil"]]
    kw["unit_normal_vector"] = np.array(d["normal"])
    return kw


def op_section(ps, pool, o, ctx, what):
    d = copy.deepcopy(o["spec"])
    if not pool.foils:
        return "skipped"
    d["airfoil"] %= len(pool.foils)
    fired, s = attempt(ctx, o["fault"], lambda: ps.geometry.WingCrossSection(**section_kwargs(pool, d)), what, pool)
    pool.sections.append(s)
    pool.section_specs.append(d)
    pool.placed.append(False)
    return fired


def pick_sections(pool, o):
    roots = [i for i, d in enumerate(pool.section_specs) if d["root"] and d["family"] == o["family"]]
    outs = [i for i, d in enumerate(pool.section_specs) if not d["root"] and d["family"] == o["family"]]
    if not roots or not outs:
        return None
    k = "z" if o["family"] == "v" else "y"
    chosen = sorted({outs[j % len(outs)] for j in o["outer"]}, key=lambda i: pool.section_specs[i][k])
    # sections at one station would enclose no area
    ids = [roots[o["root"] % len(roots)]]
    for i in chosen:
        if pool.section_specs[i][k] - pool.section_specs[ids[-1]][k] > 0.05:
            ids.append(i)
    return ids if len(ids) > 1 else None


def op_wing(ps, pool, o, ctx, what):
    ids = pick_sections(pool, o)
    if ids is None:
        return "skipped"
    normal = [0.0, 0.0, 1.0] if o["family"] == "v" else [0.0, 1.0, 0.0]
    d = dict(o, normal=normal, chordwise=pool.chordwise[o["family"]])
    kw = wing_kwargs(pool, d, ids)
    if any(pool.placed[i] for i in ids):
        ctx.nontrivial = True
        ctx.count("parts used again")
    fired, w = attempt(ctx, o["fault"], lambda: ps.geometry.Wing(**kw), what, pool)
    for i in ids:
        pool.placed[i] = True
    secs = [pool.section_specs[i] for i in ids]
    pool.wings.append(w)
    pool.wing_specs.append(d)
    pool.wing_sections.append(ids)
    pool.corners.append(G.wing_panels(d, secs, pool.foil_refs))
    ctx.count("wings built")
    pool.check_wing(ctx, len(pool.wings) - 1, what, deep=True)
    pool.derived(ctx, len(pool.wings) - 1, what)
    return fired


def wing_kwargs(pool, d, ids):
    return dict(
        name="w",
        x_le=d["x"],
        y_le=d["y"],
        z_le=d["z"],
        symmetric=d["sym"],
        unit_normal_vector=np.array(d["normal"]),
        unit_chordwise_vector=np.array(d["chordwise"]),
        num_chordwise_panels=d["nchord"],
        chordwise_spacing=d["cspace"],
        wing_cross_sections=[pool.sections[i] for i in ids],
    )


def op_airplane(ps, pool, o, ctx, what):
    if not pool.wings:
        return "skipped"
    ids = list(dict.fromkeys(j % len(pool.wings) for j in o["wings"]))
    refs = {k: o[k] for k in ("s_ref", "c_ref", "b_ref") if o[k] is not None}
    wings = [pool.wings[i] for i in ids]
    if any(w in pool.airplane_wings for w in [wings]):
        ctx.nontrivial = True

    def build():
        return ps.geometry.Airplane(name="a", wings=list(wings), x_ref=o["ref"][0], y_ref=o["ref"][1], z_ref=o["ref"][2], weight=o["weight"], **refs)

    fired, a = attempt(ctx, o["fault"], build, what, pool)
    d, c = pool.wing_specs[ids[0]], pool.corners[ids[0]]
    secs = [pool.section_specs[k] for k in pool.wing_sections[ids[0]]]
    want = {
        "s_ref": G.projected_area(c, G.up_vector(d)),
        "c_ref": G.mean_chord(d, secs, c),
        "b_ref": G.span(d, secs),
        "num_panels": sum(pool.corners[i].shape[0] * pool.corners[i].shape[1] for i in ids),
        "weight": o["weight"],
        "xyz_ref": np.array(o["ref"]),
    }
    want.update(refs)
    pool.airplanes.append(a)
    pool.airplane_want.append(want)
    pool.airplane_wings.append(wings)
    return fired


def op_edit(ps, pool, o, ctx, what):
    if not pool.sections:
        return "skipped"
    i = o["which"] % len(pool.sections)
    d, s = pool.section_specs[i], pool.sections[i]
    if o["what"] == "airfoil":
        d["airfoil"] = o["value"] % len(pool.foils)
        s.airfoil = pool.foils[d["airfoil"]]
    elif o["what"] == "place":
        if d["root"]:
            return "skipped"
        x, up, out, how = o["value"]
        d.setdefault("attributes", {k: d[k] for k in "xyz"})
        k = "z" if d["family"] == "v" else "y"
        d.setdefault("station", d[k])
        d["x"] = x
        d["y" if k == "z" else "z"] = up
        d[k] = d["station"] + out
        le = np.array([d["x"], d["y"], d["z"]])
        if how == "in place":
            s.leading_edge[:] = le
        else:
            s.leading_edge = le
        if how == "both":
            s.x_le, s.y_le, s.z_le = d["x"], d["y"], d["z"]
            d["attributes"] = {k: d[k] for k in "xyz"}
    elif o["what"] == "normal":
        if d["root"] or d["family"] == "v" or pool.chordwise["h"] != [1.0, 0.0, 0.0]:
            return "skipped"
        d["normal"] = [0.0, math.cos(o["value"]), math.sin(o["value"])]
        s.unit_normal_vector = np.array(d["normal"])
    else:
        d[o["what"]] = o["value"]
        setattr(s, SECTION[o["what"]], o["value"])
    ctx.count("edits")


def op_read(ps, pool, o, ctx, what):
    k = o["what"]
    if k in ("camber", "sample", "flap", "outline", "draw"):
        i = o["which"] % len(pool.foils)
        a, f = pool.foils[i], pool.foil_refs[i]
        if k == "camber":
            fired, got = attempt(ctx, o["fault"], lambda: a.get_camber_at_chord_fraction(o["x"]), what, pool)
            ctx.check(near(float(got), f.camber(o["x"])), "airfoil-read", lambda: f"{what}: camber at {o['x']} is {got}, not {f.camber(o['x'])}")
        elif k == "sample":
            fr = G.spaced("cosine", 7)
            fired, got = attempt(ctx, o["fault"], lambda: a.get_downsampled_mcl(fr), what, pool)
            ctx.check(near(got, f.sample(fr)), "airfoil-read", f"{what}: sampled mean camber line is off")
            if o["scribble"]:
                got[:] = 7.0
        elif k == "flap":
            fired, got = attempt(ctx, o["fault"], lambda: a.add_control_surface(deflection=o["v"], hinge_point=o["x"]), what, pool)
            check_foil(ctx, got, f.flapped(o["v"], o["x"]), f"{what}: the flapped airfoil")
            if o["scribble"]:
                for x in (got.coordinates, got.mcl_coordinates, got.upper_minus_mcl, got.thickness):
                    x[:] = 7.0
        elif k == "outline":
            fired = None
            le = int(np.argmin(f.coordinates[:, 0]))
            ctx.check(near(a.upper_coordinates(), f.coordinates[: le + 1]) and near(a.lower_coordinates(), f.coordinates[le:]), "airfoil-read", f"{what}: the upper or lower outline is off")
        else:
            fired = draw(a, f, o, ctx, what)
        return fired
    if not pool.wings:
        return "skipped"
    i = o["which"] % len(pool.wings)
    if k == "section":
        return None  # verified after every operation
    if k == "wing":
        fired, _ = attempt(ctx, o["fault"], lambda: (pool.wings[i].mean_aerodynamic_chord, pool.wings[i].wetted_area), what, pool)
        pool.derived(ctx, i, what)
        return fired
    w = pool.wings[i]
    p = w.panels.ravel()[o["which"] % w.panels.size]
    if o["scribble"]:
        for x in (p.collocation_point, p.unit_normal, p.front_left_vortex_vertex, p.front_right_vortex_vertex, p.right_leg, p.unit_spanwise):
            x[:] = 7.0  # what a property returns belongs to the caller
    pool.check_wing(ctx, i, what, deep=True)


def draw(a, f, o, ctx, what):
    import matplotlib.pyplot as plt

    shown = []
    old = plt.show
    fail = core.make_fault("error") if o["scribble"] else None

    def show(*args, **kw):
        lines = plt.gca().lines
        shown.append([np.array(l.get_xydata()) for l in lines])
        if fail is not None:
            ctx.fault("display/error")
            raise fail

    plt.close("all")
    plt.show = show
    try:
        try:
            a.draw()
        except core.SimError as e:
            ctx.check(e is fail, "fault-replaced", f"{what}: another failure")
    finally:
        plt.show = old
        plt.close("all")
    ctx.check(len(shown) == 1 and len(shown[0]) == 1 and near(shown[0][0], f.coordinates), "airfoil-read", f"{what}: the outline drawn is not the airfoil's")
    return "draw"


def op_invalid(ps, pool, o, ctx, what):
    k = o["what"]
    ge = ps.geometry
    if k == "foil-name":
        fn = lambda: ge.Airfoil(name="no such airfoil")
    elif k == "no-wings":
        fn = lambda: ge.Airplane(wings=[])
    else:
        wo = {"family": "h", "root": o["which"], "outer": [o["which"], o["which"] + 1]}
        ids = pick_sections(pool, wo)
        if ids is None:
            return "skipped"
        d = {"x": 0.0, "y": 0.0, "z": 0.0, "sym": True, "nchord": 2, "cspace": "uniform", "normal": [0.0, 1.0, 0.0], "chordwise": pool.chordwise["h"]}
        sec = copy.deepcopy(pool.section_specs[ids[1]])
        if k == "one-section":
            fn = lambda: ge.Wing(**wing_kwargs(pool, d, ids[:1]))
        elif k == "chordwise-spacing":
            fn = lambda: ge.Wing(**wing_kwargs(pool, dict(d, cspace="linear"), ids))
        elif k == "root-offset":
            sec["x"] = 0.5
            bad = ge.WingCrossSection(**section_kwargs(pool, dict(sec, normal=[0.0, 1.0, 0.0])))
            kw = wing_kwargs(pool, d, ids)
            kw["wing_cross_sections"][0] = bad
            fn = lambda: ge.Wing(**kw)
        elif k == "plane":
            fn = lambda: ge.Wing(**wing_kwargs(pool, dict(d, normal=[0.0, 0.0, 1.0]), ids))
        elif k == "deflection":
            bad = ge.WingCrossSection(**section_kwargs(pool, dict(sec, x=0.0, y=0.0, z=0.0, normal=[0.0, 1.0, 0.0], cs_defl=95.0)))
            kw = wing_kwargs(pool, d, ids)
            kw["wing_cross_sections"][0] = bad
            fn = lambda: ge.Wing(**kw)
        else:
            bad = {"chord": {"chord": 0.0 if o["which"] % 2 else -1.0}, "spanwise-spacing": {"sspace": "linear"}, "surface-type": {"cs_type": "both"}}[k]
            fn = lambda: ge.WingCrossSection(**section_kwargs(pool, dict(sec, **bad)))
    try:
        fn()
    except Exception:
        ctx.count("constructions refused")
        return "refused"
    ctx.violate("accepted", f"{what}: {k} was accepted")


def op_solve(ps, pool, o, ctx, what):
    single = [i for i, w in enumerate(pool.airplane_wings) if len(w) == 1]
    if not single:
        return "skipped"
    a = pool.airplanes[single[o["which"] % len(single)]]
    s = S.steady_solver("ring", ps.problems.SteadyProblem(airplanes=[a], operating_point=ps.operating_point.OperatingPoint()))
    with seams.streams():
        s.run()
    ctx.count("solves in between")


OPS = {"airfoil": op_airfoil, "section": op_section, "wing": op_wing, "airplane": op_airplane, "edit": op_edit, "read": op_read, "invalid": op_invalid, "solve": op_solve}


def shrink(plan):
    for i in reversed(range(len(plan["ops"]))):
        if len(plan["ops"]) > 1:
            c = copy.deepcopy(plan)
            del c["ops"][i]
            yield c
    for i, o in enumerate(plan["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(plan)
            c["ops"][i]["fault"] = None
            yield c
    for i, o in enumerate(plan["ops"]):
        simple = {}
        if o["op"] == "wing":
            simple = {"sym": False, "nchord": 1, "x": 0.0, "y": 0.0, "z": 0.0}
        for k, v in simple.items():
            if o[k] != v:
                c = copy.deepcopy(plan)
                c["ops"][i][k] = v
                yield c
        if o["op"] == "section":
            for k, v in (("cs_defl", 0.0), ("twist", 0.0), ("nspan", 1)):
                if o["spec"][k] != v:
                    c = copy.deepcopy(plan)
                    c["ops"][i]["spec"][k] = v
                    yield c
