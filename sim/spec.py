"""Model specifications (JSON) and the builder that turns one into library objects."""

import copy
import math

import numpy as np

from . import boot

AIRFOILS = [
    "naca0012",
    "naca2412",
    "naca4410",
    "naca0008",
    "naca6409",
    "clarky",
    "e197",
    "s1223",
    "mh60",
    "goe398",
]
DATABASE = [i for i, a in enumerate(AIRFOILS) if not a.startswith("naca")]

CUSTOM = {
    "cos": np.cos,
    "sin": np.sin,
    "sin+0.3cos2": lambda x: np.sin(x) + 0.3 * np.cos(2 * x),
    "tri": lambda x: 2 / np.pi * np.arcsin(np.sin(x)),
    "1-cos": lambda x: 0.5 * (1 - np.cos(x)),
}


def r3(x):
    return round(x, 7)


def gen_section(rng, first, prev, opt, vertical):
    if first:
        x = y = z = 0.0
    else:
        step = r3(rng.uniform(0.6, 1.6))
        sweep = r3(rng.choice([0.0, 0.0, rng.uniform(-0.3, 0.5)]))
        dihed = r3(rng.choice([0.0, 0.0, rng.uniform(-0.2, 0.4)]))
        x = r3(prev["x"] + sweep)
        if vertical:
            y = 0.0
            z = r3(prev["z"] + step)
        else:
            y = r3(prev["y"] + step)
            z = r3(prev["z"] + dihed)
    cs = rng.random() < 0.3
    palette = opt.get("palette", range(len(AIRFOILS)))
    s = {
        "x": x,
        "y": y,
        "z": z,
        "chord": r3(rng.uniform(0.6, 1.4) if first else prev["chord"] * rng.choice([1.0, rng.uniform(0.5, 1.05), rng.uniform(0.5, 1.05)])),
        "twist": r3(rng.choice([0.0, rng.uniform(-4, 4)])),
        "airfoil": rng.choice(palette) if rng.random() < 0.5 else (prev or {"airfoil": rng.choice(palette)})["airfoil"],
        "cs_type": rng.choice(["symmetric", "asymmetric"]),
        "cs_hinge": r3(rng.uniform(0.6, 0.85)),
        "cs_defl": r3(rng.uniform(-8, 8)) if cs else 0.0,
        "nspan": rng.choice([1, 1, 2, 2, 3][: opt.get("span_choices", 5)]),
        "sspace": rng.choice(["cosine", "uniform"]),
    }
    # What neighbouring sections have in common is as important as what they have not.
    if not first and rng.random() < 0.35:
        for k in ("cs_type", "cs_hinge", "cs_defl", "twist"):
            s[k] = prev[k]
    return s


def gen_wing(rng, name, opt, pos, vertical=False):
    nsec = rng.choice([2, 2, 2, 2, 3, 3, 4])
    sections = []
    for i in range(nsec):
        sections.append(gen_section(rng, i == 0, sections[-1] if sections else None, opt, vertical))
    normal = [0.0, 0.0, 1.0] if vertical else [0.0, 1.0, 0.0]
    slanted = not vertical and rng.random() < opt.get("slanted", 0.06)
    if slanted:  # as half of a V-tail
        angle = math.radians(rng.choice([30, 45, -40, 60, -70]))
        normal = [0.0, math.cos(angle), math.sin(angle)]
        for s in sections:
            s["y"], s["z"] = r3(s["y"] * normal[1] - s["z"] * normal[2]), r3(s["y"] * normal[2] + s["z"] * normal[1])
    return {
        "name": name,
        "x": pos[0],
        "y": pos[1],
        "z": pos[2],
        "sym": not vertical and not slanted and rng.random() < 0.5,
        "normal": normal,
        "chordwise": [1.0, 0.0, 0.0],
        "nchord": rng.choice([1, 2, 2, 3]),
        "cspace": rng.choice(["cosine", "uniform"]),
        "sections": sections,
    }


def wing_panels(w):
    n = sum(s["nspan"] for s in w["sections"][:-1]) * w["nchord"]
    return n * 2 if w["sym"] else n


def span_panels(w):
    n = sum(s["nspan"] for s in w["sections"][:-1])
    return n * 2 if w["sym"] else n


def gen_airplane(rng, i, opt, origin):
    nw = rng.choice([1, 1, 1, 2, 2, 3]) if opt.get("multi_wing", True) else 1
    wings = []
    for j in range(nw):
        vertical = j > 0 and opt.get("vertical", True) and rng.random() < 0.3
        pos = [r3(origin[0] + 3.5 * j), r3(origin[1] + (0.3 if vertical else 0.0)), r3(origin[2] + 0.45 * j)]
        wings.append(gen_wing(rng, f"wing {i}.{j}", opt, pos, vertical))
    a = {
        "name": f"airplane {i}",
        "x_ref": r3(origin[0] + rng.uniform(-0.2, 0.5)),
        "y_ref": r3(origin[1] + rng.choice([0.0, rng.uniform(-0.2, 0.2)])),
        "z_ref": r3(origin[2] + rng.choice([0.0, rng.uniform(-0.2, 0.2)])),
        "weight": r3(rng.choice([0.0, rng.uniform(1, 400)])),
        "wings": wings,
    }
    if rng.random() < opt.get("user_refs", 0.35):
        for k, lo, hi in (("s_ref", 1, 6), ("c_ref", 0.4, 1.5), ("b_ref", 2, 8)):
            if rng.random() < 0.7:
                a[k] = r3(rng.uniform(lo, hi))
    return a


def moved(a, i, by):
    """The same airplane flying elsewhere."""
    c = copy.deepcopy(a)
    c["name"] = f"airplane {i}"
    for k, d in zip("xyz", by):
        c[k + "_ref"] = r3(c[k + "_ref"] + d)
    for j, w in enumerate(c["wings"]):
        w["name"] = f"wing {i}.{j}"
        for k, d in zip("xyz", by):
            w[k] = r3(w[k] + d)
    return c


def rename(rng, airplanes):
    """Names in no particular order; wings of different airplanes may share theirs."""
    words = rng.sample(["Zulu", "airplane", "Untitled", "Mike", "a", "0"], len(airplanes))
    common = rng.random() < 0.3
    for i, (a, word) in enumerate(zip(airplanes, words)):
        a["name"] = f"{word} {i}"
        for j, w in enumerate(a["wings"]):
            w["name"] = ("Main Wing" if common else f"wing {i}.{j}")


def gen_op(rng):
    return {
        "density": r3(rng.choice([1.225, rng.uniform(0.4, 1.4)])),
        "velocity": r3(rng.uniform(5.0, 20.0)),
        "alpha": r3(rng.choice([rng.uniform(-4, 9), rng.uniform(-4, 9), rng.uniform(-4, 9), 0.0, rng.uniform(-10, 14)])),
        "beta": r3(rng.choice([0.0, rng.uniform(-6, 6), rng.uniform(-6, 6), rng.uniform(-12, 12)])),
        "thrust": r3(rng.choice([0.0, rng.uniform(-5, 20)])),
        "nu": rng.choice([15.06e-6, 15.06e-6, 1e-5, 1e-3]),
    }


def _osc(rng, lo, hi, periods, prob, custom=False):
    if rng.random() >= prob:
        return None
    d = {
        "a": r3(rng.uniform(lo, hi) * rng.choice([-1, 1])),
        "p": rng.choice(periods),
        "s": rng.choice(["sine", "sine", "uniform"]),
    }
    if custom and rng.random() < 0.25:
        d["s"] = "custom"
        d["f"] = rng.choice(sorted(CUSTOM))
    return d


def gen_movement(rng, airplanes, dt, steps, opt):
    periods = [r3(dt * k) for k in rng.sample([2, 2.5, 3, 4, 5.3, 7, 12, 40], 3)]
    p = opt.get("move_prob", 0.5)
    out = []
    for a in airplanes:
        wm = []
        for w in a["wings"]:
            sm = []
            vertical = w["normal"] == [0.0, 0.0, 1.0]
            for k, _ in enumerate(w["sections"]):
                if k == 0:
                    sm.append({"sweep": None, "heave": None, "pitch": _osc(rng, 1, 6, periods, p * 0.5, True)})
                elif vertical:
                    sm.append({"sweep": None, "heave": None, "pitch": None})
                else:
                    sm.append(
                        {
                            "sweep": _osc(rng, 2, 15, periods, p, True),
                            "heave": _osc(rng, 1, 8, periods, p * 0.5, True),
                            "pitch": _osc(rng, 1, 6, periods, p * 0.5, True),
                        }
                    )
            wm.append(
                {
                    "sections": sm,
                    "x": _osc(rng, 0.02, 0.1, periods, p * 0.25),
                    "y": None,
                    "z": _osc(rng, 0.02, 0.1, periods, p * 0.25),
                }
            )
            if rng.random() < p * 0.15:
                wm[-1]["y"] = _osc(rng, 0.02, 0.05, periods, 1.0)
        out.append(
            {
                "wings": wm,
                "x_ref": _osc(rng, 0.02, 0.3, periods, p * 0.2),
                "y_ref": _osc(rng, 0.02, 0.3, periods, p * 0.1),
                "z_ref": _osc(rng, 0.02, 0.3, periods, p * 0.1),
            }
        )
    return out


def gen_model(rng, kind="unsteady", steps=(3, 7), **opt):
    """Generate a small, valid, well-separated model.

    opt: max_airplanes (3), move_prob (0 = static), max_panels, user_refs, fine (chance of a
    fine mesh), ...
    """
    max_panels = opt.get("max_panels", 26)
    if rng.random() < opt.get("fine", 0.0):
        # a few hundred panels: what is done blockwise or to a limit shows only here
        opt = dict(opt, scale=rng.choice([3, 4, 5, 6, 8]))
        max_panels = min(8, max_panels)
        steps = (steps[0], min(steps[1], steps[0] + 1))
    for _ in range(200):
        na = rng.choice([1, 1, 1, 1, 2, 2, 3] if opt.get("max_airplanes", 3) > 2 else [1, 1, 1, 2] if opt.get("max_airplanes", 3) > 1 else [1])
        airplanes = []
        for i in range(na):
            origin = [r3(1.2 * i), r3(0.4 * i), r3(2.5 * i)]
            airplanes.append(gen_airplane(rng, i, opt, origin))
            if i and rng.random() < 0.3:
                airplanes[i] = moved(airplanes[0], i, origin)
        tot = sum(wing_panels(w) for a in airplanes for w in a["wings"])
        if tot <= max_panels:
            break
    for a in airplanes:
        for w in a["wings"]:
            w["nchord"] *= opt.get("scale", 1)
            for sec in w["sections"]:
                sec["nspan"] *= opt.get("scale", 1)
    rename(rng, airplanes)
    m = {"airplanes": airplanes, "op": gen_op(rng)}
    big, fast = (
        (math.exp(rng.uniform(math.log(0.004), math.log(15))), math.exp(rng.uniform(math.log(0.3), math.log(8))))
        if rng.random() < opt.get("size", 0.12)
        else (1.0, 1.0)
    )
    if kind == "steady":
        resize(m, big, fast)
        return m
    n = rng.randint(*steps)
    chord = airplanes[0]["wings"][0]["sections"][0]["chord"]
    m["dt"] = chord / m["op"]["velocity"] * rng.choice([0.25, 0.4, 0.5, 0.8])
    m["steps"] = n
    static = rng.random() < opt.get("static_prob", 0.25)
    o2 = dict(opt)
    if static:
        o2["move_prob"] = 0.0
    m["movement"] = gen_movement(rng, airplanes, m["dt"], n, o2)
    m["op_move"] = (
        _osc(rng, 0.3, 3.0, [r3(m["dt"] * k) for k in (3, 4, 6.5)], 0.0 if static else opt.get("op_move", 0.25))
    )
    m["only_final"] = rng.random() < opt.get("only_final", 0.2)
    m["prescribed"] = rng.random() < 0.5
    m["streamlines"] = rng.random() < 0.6
    resize(m, big, fast)
    return m


def resize(m, big, fast):
    """The same model of another size and speed: insects and airliners."""
    if big == fast == 1.0:
        return
    m["op"]["velocity"] *= fast
    m["op"]["thrust"] *= (big * fast) ** 2
    for a in m["airplanes"]:
        a["weight"] *= (big * fast) ** 2
        for k, n in (("x_ref", 1), ("y_ref", 1), ("z_ref", 1), ("c_ref", 1), ("b_ref", 1), ("s_ref", 2)):
            if k in a:
                a[k] *= big**n
        for w in a["wings"]:
            for part in [w] + w["sections"]:
                for k in ("x", "y", "z", "chord"):
                    if k in part:
                        part[k] *= big
    if "movement" not in m:
        return
    m["dt"] *= big / fast
    if m.get("op_move"):
        m["op_move"]["a"] *= fast
        m["op_move"]["p"] *= big / fast

    def each(osc, length):
        if osc:
            osc["p"] *= big / fast
            if length:
                osc["a"] *= big

    for a in m["movement"]:
        for k in ("x_ref", "y_ref", "z_ref"):
            each(a[k], True)
        for w in a["wings"]:
            for k in "xyz":
                each(w[k], True)
            for sec in w["sections"]:
                for k in ("sweep", "heave", "pitch"):
                    each(sec[k], False)


class Built:
    pass


NO_CACHE = "each cross section loads its own airfoil"


def make_airfoil(i, cache):
    ps = boot.ps
    if cache is not None and NO_CACHE in cache:
        cache = None
    if cache is not None and i in cache:
        return cache[i]
    af = ps.geometry.Airfoil(name=AIRFOILS[i], repanel=True, n_points_per_side=40)
    if cache is not None:
        cache[i] = af
    return af


def make_section(s, w, cache):
    ps = boot.ps
    return ps.geometry.WingCrossSection(
        x_le=s["x"],
        y_le=s["y"],
        z_le=s["z"],
        chord=s["chord"],
        twist=s["twist"],
        airfoil=make_airfoil(s["airfoil"], cache),
        unit_normal_vector=np.array(s.get("normal", w["normal"])),
        control_surface_type=s["cs_type"],
        control_surface_hinge_point=s["cs_hinge"],
        control_surface_deflection=s["cs_defl"],
        num_spanwise_panels=s["nspan"],
        spanwise_spacing=s["sspace"],
    )


def make_wing(w, cache):
    ps = boot.ps
    return ps.geometry.Wing(
        name=w["name"],
        x_le=w["x"],
        y_le=w["y"],
        z_le=w["z"],
        symmetric=w["sym"],
        unit_normal_vector=np.array(w["normal"]),
        unit_chordwise_vector=np.array(w["chordwise"]),
        num_chordwise_panels=w["nchord"],
        chordwise_spacing=w["cspace"],
        wing_cross_sections=[make_section(s, w, cache) for s in w["sections"]],
    )


def make_airplane(a, cache):
    ps = boot.ps
    kw = {k: a[k] for k in ("s_ref", "c_ref", "b_ref") if a.get(k) is not None}
    return ps.geometry.Airplane(
        name=a["name"],
        x_ref=a["x_ref"],
        y_ref=a["y_ref"],
        z_ref=a["z_ref"],
        weight=a["weight"],
        wings=[make_wing(w, cache) for w in a["wings"]],
        **kw,
    )


def make_op(o):
    return boot.ps.operating_point.OperatingPoint(
        density=o["density"],
        velocity=o["velocity"],
        alpha=o["alpha"],
        beta=o["beta"],
        external_thrust=o["thrust"],
        nu=o["nu"],
    )


def _osc_kw(prefix, d, custom_name=None):
    if d is None:
        return {}
    kw = {
        prefix + "_amplitude": d["a"],
        prefix + "_period": d["p"],
        prefix + "_spacing": d["s"],
    }
    if d["s"] == "custom":
        kw[custom_name] = CUSTOM[d["f"]]
    return kw


def make_airplane_movement(mv, airplane):
    M = boot.ps.movement
    wms = []
    for wd, wing in zip(mv["wings"], airplane.wings):
        sms = []
        for sd, sec in zip(wd["sections"], wing.wing_cross_sections):
            sms.append(
                M.WingCrossSectionMovement(
                    base_wing_cross_section=sec,
                    **_osc_kw("sweeping", sd["sweep"], "custom_sweep_function"),
                    **_osc_kw("pitching", sd["pitch"], "custom_pitch_function"),
                    **_osc_kw("heaving", sd["heave"], "custom_heave_function"),
                )
            )
        wms.append(
            M.WingMovement(
                base_wing=wing,
                wing_cross_sections_movements=sms,
                **_osc_kw("x_le", wd["x"]),
                **_osc_kw("y_le", wd["y"]),
                **_osc_kw("z_le", wd["z"]),
            )
        )
    return M.AirplaneMovement(
        base_airplane=airplane,
        wing_movements=wms,
        **_osc_kw("x_ref", mv["x_ref"]),
        **_osc_kw("y_ref", mv["y_ref"]),
        **_osc_kw("z_ref", mv["z_ref"]),
    )


def make_movement(spec, airplanes, op):
    M = boot.ps.movement
    ams = [make_airplane_movement(mv, a) for mv, a in zip(spec["movement"], airplanes)]
    om = M.OperatingPointMovement(
        base_operating_point=op, **_osc_kw("velocity", spec["op_move"])
    )
    kw = {}
    for k, name in (("steps", "num_steps"), ("cycles", "num_cycles"), ("chords", "num_chords"), ("dt", "delta_time")):
        if spec.get(k) is not None:
            kw[name] = spec[k]
    return M.Movement(airplane_movements=ams, operating_point_movement=om, **kw)


def build(spec, cache=None, airplanes=None, op=None):
    """Build fresh library objects from a specification."""
    ps = boot.ps
    b = Built()
    b.spec = spec
    cache = {} if cache is None else cache
    b.airplanes = airplanes or [make_airplane(a, cache) for a in spec["airplanes"]]
    b.op = op or make_op(spec["op"])
    b.steady_problem = None
    b.problem = None
    if "dt" in spec or "steps" in spec:
        b.movement = make_movement(spec, b.airplanes, b.op)
        b.problem = ps.problems.UnsteadyProblem(
            movement=b.movement, only_final_results=spec.get("only_final", False)
        )
    else:
        b.steady_problem = ps.problems.SteadyProblem(airplanes=b.airplanes, operating_point=b.op)
    return b


def unsteady_solver(b):
    return boot.ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(b.problem)


def steady_solver(kind, problem):
    ps = boot.ps
    if kind == "ring":
        return ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver(problem)
    return ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver(problem)


def make_solver(kind, b):
    return unsteady_solver(b) if kind == "unsteady" else steady_solver(kind, b.steady_problem)


def run_kwargs(spec, **over):
    kw = {
        "prescribed_wake": spec.get("prescribed", True),
        "calculate_streamlines": spec.get("streamlines", True),
        "logging_level": spec.get("log", "Warning"),
    }
    kw.update(over)
    return kw


# ---------------------------------------------------------------- shrinking


def shrink_model(m):
    """Yield simpler versions of a model specification."""

    def cp():
        return copy.deepcopy(m)

    if len(m["airplanes"]) > 1:
        for i in range(len(m["airplanes"])):
            c = cp()
            del c["airplanes"][i]
            if "movement" in c:
                del c["movement"][i]
            yield c
    for i, a in enumerate(m["airplanes"]):
        if len(a["wings"]) > 1:
            for j in range(len(a["wings"])):
                c = cp()
                del c["airplanes"][i]["wings"][j]
                if "movement" in c:
                    del c["movement"][i]["wings"][j]
                yield c
    if m.get("steps") and m["steps"] > 2:
        for n in sorted({2, m["steps"] // 2, m["steps"] - 1}):
            if 2 <= n < m["steps"]:
                c = cp()
                c["steps"] = n
                yield c
    for i, a in enumerate(m["airplanes"]):
        for k in ("s_ref", "c_ref", "b_ref"):
            if k in a:
                c = cp()
                del c["airplanes"][i][k]
                yield c
        for j, w in enumerate(a["wings"]):
            if len(w["sections"]) > 2:
                c = cp()
                del c["airplanes"][i]["wings"][j]["sections"][-1]
                if "movement" in c:
                    del c["movement"][i]["wings"][j]["sections"][-1]
                yield c
            if w["nchord"] > 1:
                c = cp()
                c["airplanes"][i]["wings"][j]["nchord"] = 1
                yield c
            if w["sym"]:
                c = cp()
                c["airplanes"][i]["wings"][j]["sym"] = False
                yield c
            if any(s["nspan"] > 1 for s in w["sections"]):
                c = cp()
                for s in c["airplanes"][i]["wings"][j]["sections"]:
                    s["nspan"] = 1
                yield c
            if any(s["cs_defl"] or s["twist"] for s in w["sections"]):
                c = cp()
                for s in c["airplanes"][i]["wings"][j]["sections"]:
                    s["cs_defl"] = 0.0
                    s["twist"] = 0.0
                yield c
    if "movement" in m:
        for i, a in enumerate(m["movement"]):
            for k in ("x_ref", "y_ref", "z_ref"):
                if a[k]:
                    c = cp()
                    c["movement"][i][k] = None
                    yield c
            for j, w in enumerate(a["wings"]):
                for k in ("x", "y", "z"):
                    if w[k]:
                        c = cp()
                        c["movement"][i]["wings"][j][k] = None
                        yield c
                for s, sd in enumerate(w["sections"]):
                    for k in ("sweep", "heave", "pitch"):
                        if sd[k]:
                            c = cp()
                            c["movement"][i]["wings"][j]["sections"][s][k] = None
                            yield c
        if m.get("op_move"):
            c = cp()
            c["op_move"] = None
            yield c
    if m["op"]["beta"]:
        c = cp()
        c["op"]["beta"] = 0.0
        yield c


def describe(m):
    return {
        "airplanes": len(m["airplanes"]),
        "wings": sum(len(a["wings"]) for a in m["airplanes"]),
        "panels": sum(wing_panels(w) for a in m["airplanes"] for w in a["wings"]),
        "steps": m.get("steps"),
        "dt": m.get("dt"),
        "prescribed": m.get("prescribed"),
    }


def sim_time(m):
    return (m.get("steps") or 0) * (m.get("dt") or 0.0)


def is_static(m):
    if m.get("op_move"):
        return False
    for a in m["movement"]:
        if a["x_ref"] or a["y_ref"] or a["z_ref"]:
            return False
        for w in a["wings"]:
            if w["x"] or w["y"] or w["z"]:
                return False
            for s in w["sections"]:
                if s["sweep"] or s["heave"] or s["pitch"]:
                    return False
    return True


def max_period(m):
    p = [0.0]
    if m.get("op_move"):
        p.append(m["op_move"]["p"])
    for a in m["movement"]:
        for k in ("x_ref", "y_ref", "z_ref"):
            if a[k]:
                p.append(a[k]["p"])
        for w in a["wings"]:
            for k in "xyz":
                if w[k]:
                    p.append(w[k]["p"])
            for s in w["sections"]:
                for k in ("sweep", "heave", "pitch"):
                    if s[k]:
                        p.append(s[k]["p"])
    return max(p)


def first_averaging_step(m):
    p = max_period(m)
    n = m["steps"]
    if p == 0:
        return n - 1
    return max(0, math.floor(n - p / m["dt"]))


def first_averaging_steps(m):
    """The documented first averaging step; both neighbours when period / step size is an
    integer up to rounding, where the floor is decided by the last bit."""
    p = max_period(m)
    n = m["steps"]
    if p == 0:
        return [n - 1]
    r = p / m["dt"]
    out = {max(0, math.floor(n - r))}
    if abs(r - round(r)) < 1e-9 * max(1.0, r):
        out.add(max(0, n - round(r)))
    return sorted(out)
