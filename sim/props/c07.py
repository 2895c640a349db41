"""C07: viewing and reporting never change results and show exactly what was recorded."""

import contextlib
import copy
import os
import re

import numpy as np
from scipy.spatial import cKDTree

from .. import boot, core, display
from .. import harness as H
from .. import observe as O
from .. import seams
from .. import spec as S

ID = "C07"
RUNS = {"quick": 420, "thorough": 14000}
RULE = (
    "A case is 1-2 random solved problems (horseshoe, ring or unsteady; static or moving; all or only final results) "
    "and a history of 2-6 outputs (draw, animate, plot, print) with random options, each on either problem, some with a "
    "failing device operation (opening the window, drawing, showing, screenshot, saving, closing), a failing output "
    "stream or a crash at a random line; steady problems may be solved again at another angle of attack in between. "
    "Everything drawn, captured, saved and printed is recorded and compared with the solver's record. Non-trivial: an "
    "output completed; cases are distinct if their event logs differ."
)
STATE_MEASURE = "distinct (output, options, solver, static, only final, fault type, operation or function struck, position)"
REAL = ["output", "pyvista meshes", "matplotlib figures (Agg)", "PIL", "the three solvers"]
STUB = ["pyvista window (records scenes)", "image encoders and figure files (simulated disk)", "streams, clock (simulated)"]
ASSUMPTIONS = [
    "Of airplanes with one name, the saved plots may be anyone's (files are named after them).",
    "Unsteady problems have at least two time steps.",
]

SCALARS = {"induced drag": "induced_drag_coefficient", "side force": "side_force_coefficient", "lift": "lift_coefficient"}


def gen_world(rng):
    kind = rng.choice(["horseshoe", "ring", "unsteady", "unsteady", "unsteady"])
    if kind == "unsteady":
        m = S.gen_model(rng, steps=(2, 5), max_panels=14, only_final=0.45, static_prob=0.4, move_prob=0.4)
        if rng.random() < 0.08:
            m = S.gen_model(rng, steps=(12, 60), max_panels=3, max_airplanes=1, multi_wing=False, only_final=0.3, static_prob=0.3, move_prob=0.4)
        if rng.random() < 0.5:
            for p in oscillations(m):
                p["p"] = S.r3(m["dt"] * rng.choice([1.2, 1.5, 2, 2.5]))
    else:
        m = S.gen_model(rng, kind="steady", max_panels=14)
    for i, a in enumerate(m["airplanes"]):
        a["name"] = rng.choice(["Glider", "x", "airplane", "A b"]) + f" {i}"
    if rng.random() < 0.3:  # of one type, and named after it
        for a in m["airplanes"]:
            a["name"] = m["airplanes"][0]["name"]
    return {"kind": kind, "model": m}


def oscillations(m):
    if m.get("op_move"):
        yield m["op_move"]
    for a in m["movement"]:
        for k in ("x_ref", "y_ref", "z_ref"):
            if a[k]:
                yield a[k]
        for w in a["wings"]:
            for k in "xyz":
                if w[k]:
                    yield w[k]
            for s in w["sections"]:
                for k in ("sweep", "heave", "pitch"):
                    if s[k]:
                        yield s[k]


def gen(rng, i, tier):
    worlds = [gen_world(rng) for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        w = rng.randrange(len(worlds))
        unsteady = worlds[w]["kind"] == "unsteady"
        names = ["draw", "print"] + (["animate", "animate", "plot"] if unsteady else ["draw", "resolve"])
        o = {"op": rng.choice(names), "world": w, "fault": None}
        if o["op"] in ("draw", "animate"):
            o["scalars"] = rng.choice([None, "induced drag", "side force", "lift"])
            o["save"] = rng.random() < 0.75
            o["testing"] = rng.random() < 0.7
            o["wake"] = rng.random() < 0.5
            if o["op"] == "draw":
                # Streamlines that were not calculated cannot be shown.
                o["streamlines"] = worlds[w]["model"].get("streamlines", True) and rng.random() < 0.4
        elif o["op"] == "plot":
            o["show"] = rng.random() < 0.4
            o["windows closed"] = rng.random() < 0.4
            o["save"] = rng.random() < 0.7
        elif o["op"] == "resolve":
            o["alpha"] = round(rng.uniform(-5, 10), 2)
        r = rng.random()
        if o["op"] != "resolve":
            if r < 0.3:
                t = "device" if o["op"] != "print" else "stdout"
                kinds = ["os", "error", "interrupt", "memory"] if t == "device" else ["os", "pipe"]
                o["fault"] = {"type": t, "frac": round(rng.random(), 5), "kind": rng.choice(kinds)}
            elif r < 0.42:
                o["fault"] = H.gen_fault(rng, ["line"])
        ops.append(o)
    return {"worlds": worlds, "ops": ops}


class World:
    def __init__(self, w):
        self.kind = w["kind"]
        self.spec = copy.deepcopy(w["model"])
        self.b = S.build(self.spec)
        self.solver = S.make_solver(self.kind, self.b)
        self.solve()

    def solve(self):
        with seams.streams(), seams.SimClock("tick").installed():
            if self.kind == "unsteady":
                self.solver.run(**S.run_kwargs(self.spec, logging_level="Critical"))
            else:
                self.solver.run(logging_level="Critical")
        self.record = self.snapshot()

    def snapshot(self):
        d = O.results(self.solver, self.kind)
        for i, a in enumerate(self.b.airplanes):
            for k, v in O.airplane_params(a).items():
                d[f"base{i}.{k}"] = v
        for k, v in O.op_params(self.b.op).items():
            d["base.op." + k] = v
        if self.kind == "unsteady":
            for k in ("num_steps", "delta_time", "first_results_step", "first_averaging_step"):
                d["problem." + k] = getattr(self.solver.unsteady_problem, k)
            d["current"] = getattr(self.solver, "current_step", None)
        return d

    def airplanes(self, step=None):
        if self.kind != "unsteady":
            return self.solver.airplanes
        return self.solver.unsteady_problem.steady_problems[step].airplanes

    @property
    def steps(self):
        return len(self.solver.unsteady_problem.steady_problems)


# ----------------------------------------------------------- what should be shown


def panel_quads(airplanes):
    return [
        np.array([p.front_left_vertex, p.front_right_vertex, p.back_right_vertex, p.back_left_vertex], dtype=float)
        for a in airplanes
        for p in O.panels_of(a)
    ]


def scalars_of(airplanes, kind):
    return [float(getattr(p, SCALARS[kind])) for a in airplanes for p in O.panels_of(a)]


def wake_quads(w, step):
    out = []
    for a in w.airplanes(step):
        for wing in a.wings:
            for r in np.ravel(wing.wake_ring_vortices):
                out.append(np.array([r.front_left_vertex, r.front_right_vertex, r.back_right_vertex, r.back_left_vertex], dtype=float))
    return out


def faces(qs, scal=None):
    """Faces as (corners or end points, scalar) pairs."""
    return [(np.asarray(q, dtype=float).reshape(-1, 3), 0.0 if scal is None else float(scal[i])) for i, q in enumerate(qs)]


def same(a, b, tol=1e-6):
    """None if the faces of `a` are those of `b`, in any order and with their corners in any order."""
    if len(a) != len(b):
        return f"{len(a)} faces instead of {len(b)}"
    if not a:
        return None
    feature = lambda rows: np.array([np.append(q.mean(axis=0), s) for q, s in rows])
    fa, fb = feature(a), feature(b)
    if not (np.isfinite(fa).all() and np.isfinite(fb).all()):
        return None if np.array_equal(np.sort(fa, axis=0), np.sort(fb, axis=0), equal_nan=True) else "values that are not finite"
    scale = 1 + max(np.abs(q).max() for q, _ in b)
    step = np.append(np.full(3, tol * scale), tol * (1 + np.abs(fb[:, 3]).max()))
    tree = cKDTree(fb / step)
    used = np.zeros(len(b), dtype=bool)
    for n, near in enumerate(tree.query_ball_point(fa / step, 2.0)):
        for k in near:
            if not used[k] and corners(a[n][0], b[k][0], tol * scale):
                used[k] = True
                break
        else:
            return f"{np.round(a[n][0], 6).tolist()} with {a[n][1]:.9g} is none of those"
    return None


def corners(p, q, tol):
    if p.shape != q.shape:
        return False
    hit = np.abs(p[:, None, :] - q[None, :, :]).max(axis=2) <= tol
    return bool(hit.any(axis=1).all() and hit.any(axis=0).all())


def texts(scene):
    return [s["text"] for s in scene if "text" in s]


def check_scene(ctx, w, scene, step, o, what, scalars, lo=None, hi=None):
    """One rendered scene against the record of a time step."""
    airplanes = w.airplanes(step)
    meshes = [s for s in scene if "quads" in s]
    want_wake = wake_quads(w, step) if o["wake"] and w.kind == "unsteady" and step > 0 else []
    if scalars:
        vals = scalars_of(airplanes, o["scalars"])
        col = [m for m in meshes if m["scalars"] is not None]
        rest = [m for m in meshes if m["scalars"] is None]
        got = []
        for m in col:
            ctx.check(len(m["scalars"]) == len(m["quads"]), "wrong-scalars", f"{what}: {len(m['scalars'])} scalars on {len(m['quads'])} faces")
            got += faces(m["quads"], m["scalars"])
        bad = same(got, faces(panel_quads(airplanes), vals))
        ctx.check(bad is None, "wrong-scalars", lambda: f"{what}: the coloured panels are not the recorded ones: {bad}")
        bad = same(faces([q for m in rest for q in m["quads"]]), faces(want_wake))
        ctx.check(bad is None, "wrong-wake", lambda: f"{what}: the wake is not the recorded one: {bad}")
        for word, v in (("Max", hi if hi is not None else max(vals)), ("Min", lo if lo is not None else min(vals))):
            t = [x for x in texts(scene) if x.startswith(word)]
            ctx.check(len(t) == 1, "wrong-text", f"{what}: {len(t)} texts for {word}")
            n = number(t[0])
            ctx.check(n is not None and abs(n - v) <= 0.00501 + 1e-9 * abs(v), "wrong-text", f"{what}: says {t[0]!r} and it is {v}")
    else:
        ctx.check(all(m["scalars"] is None for m in meshes), "wrong-scalars", f"{what}: panels are coloured although there are no results to show")
        bad = same(faces([q for m in meshes for q in m["quads"]]), faces(panel_quads(airplanes) + want_wake))
        ctx.check(bad is None, "wrong-panels", lambda: f"{what}: panels and wake are not the recorded ones: {bad}")
    segs = [s for m in meshes for s in m["segments"]]
    want = []
    if o.get("streamlines"):
        pts = np.asarray(w.solver.streamline_points, dtype=float)
        want = [(pts[i - 1, j], pts[i, j]) for j in range(pts.shape[1]) for i in range(1, pts.shape[0])]
    ctx.check(len(segs) == len(want), "wrong-streamlines", f"{what}: {len(segs)} streamline segments instead of {len(want)}")
    if want:
        # A stand-in for a plotter stores single precision numbers.
        bad = same(faces(segs), faces(want), tol=1e-6)
        ctx.check(bad is None, "wrong-streamlines", lambda: f"{what}: streamlines are not the recorded ones: {bad}")


def number(text):
    m = re.search(r"-?\d+(\.\d+)?(e[-+]?\d+)?", text)
    return float(m.group(0)) if m else None


def check_draw(ctx, w, o, dev, what):
    step = w.steps - 1 if w.kind == "unsteady" else None
    ctx.check(len(dev.shown) >= 1, "not-shown", f"{what}: nothing was shown")
    for scene in dev.shown:
        check_scene(ctx, w, scene, step, o, what, o["scalars"] is not None)
    if o["save"]:
        f = dev.files.get("Draw.webp")
        ctx.check(f is not None and len(f["frames"]) == 1, "not-saved", f"{what}: no picture was saved ({sorted(dev.files)})")
        check_scene(ctx, w, dev.frames[f["frames"][0]], step, o, what + ", saved picture", o["scalars"] is not None)
    else:
        ctx.check(not dev.files, "saved", f"{what}: saved {sorted(dev.files)}")


def check_animate(ctx, w, o, dev, what):
    n, first = w.steps, w.solver.unsteady_problem.first_results_step
    lo = hi = None
    if o["scalars"]:
        v = [x for k in range(first, n) for x in scalars_of(w.airplanes(k), o["scalars"])]
        lo, hi = min(v), max(v)
    ctx.check(len(dev.shown) >= 1, "not-shown", f"{what}: nothing was shown")
    check_scene(ctx, w, dev.shown[0], 0, o, what + ", opening scene", bool(o["scalars"]) and first == 0, lo, hi)
    if not o["save"]:
        ctx.check(not dev.files, "saved", f"{what}: saved {sorted(dev.files)}")
        return
    f = dev.files.get("Animate.webp")
    ctx.check(f is not None, "not-saved", f"{what}: no animation was saved ({sorted(dev.files)})")
    ctx.check(len(f["frames"]) == n, "wrong-frames", f"{what}: {len(f['frames'])} frames for {n} time steps")
    clims = set()
    for k, fr in enumerate(f["frames"]):
        scene = dev.frames[fr]
        coloured = bool(o["scalars"]) and k >= first
        check_scene(ctx, w, scene, k, o, f"{what}, frame {k}", coloured, lo, hi)
        if coloured:
            clims |= {tuple(np.round(np.array(m["clim"], dtype=float), 12)) for m in scene if "quads" in m and m["scalars"] is not None}
        ctx.count("frames compared")
    ctx.check(len(clims) <= 1, "wrong-scale", f"{what}: the frames use different colour scales {clims}")
    rate = min(50.0, 1 / w.solver.unsteady_problem.delta_time)
    ctx.check(abs(f["fps"] - rate) <= 1 + 1e-9, "wrong-speed", f"{what}: {f['fps']} frames per second for a rate of {rate}")
    for scene in (dev.frames[i] for i in f["frames"]):
        for t in texts(scene):
            if t.startswith("Speed"):
                want = 100 * rate * w.solver.unsteady_problem.delta_time
                ctx.check(abs(number(t) - want) <= 1.0, "wrong-speed", f"{what}: says {t!r} and it is {want:.1f}%")


QUANTITIES = {
    "Forces": ("total_near_field_force_wind_axes", ("Induced Drag", "Side Force", "Lift")),
    "Force Coefficients": ("total_near_field_force_coefficients_wind_axes", ("Induced Drag", "Side Force", "Lift")),
    "Moments": ("total_near_field_moment_wind_axes", ("Roll", "Pitch", "Yaw")),
    "Moment Coefficients": ("total_near_field_moment_coefficients_wind_axes", ("Roll", "Pitch", "Yaw")),
}


def check_figure(ctx, w, fig, i, name, q, what):
    attr, labels = QUANTITIES[q]
    prob = w.solver.unsteady_problem
    first, n = prob.first_results_step, w.steps
    ctx.check(len(fig) == 1, "wrong-figure", f"{what}: {len(fig)} axes")
    ax = fig[0]
    ctx.check(ax["title"] == f"{name} {q} vs. Time", "wrong-figure", f"{what}: the title is {ax['title']!r}")
    times = np.array([k * prob.delta_time for k in range(first, n)])
    data = np.array([getattr(w.airplanes(k)[i], attr) for k in range(first, n)], dtype=float)
    ctx.check(set(ax["lines"]) == set(labels), "wrong-figure", f"{what}: curves {sorted(ax['lines'])}")
    for c, lab in enumerate(labels):
        ctx.check(len(ax["lines"][lab]) == 1, "wrong-figure", f"{what}: {len(ax['lines'][lab])} curves {lab}")
        x, y = ax["lines"][lab][0]
        ctx.check(x.shape == times.shape and np.allclose(x, times, rtol=1e-9, atol=1e-12), "wrong-times", lambda: f"{what}, {lab}: times {x} instead of {times}")
        ctx.check(
            y.shape == data[:, c].shape and np.allclose(y, data[:, c], rtol=1e-9, atol=1e-12),
            "wrong-curve",
            lambda: f"{what}, {lab}: {y} instead of {data[:, c]}",
        )
    ctx.count("curves compared", 3)


def check_plot(ctx, w, o, dev, what):
    names = [a.name for a in w.airplanes(0)]
    want = [(nm, q) for nm in dict.fromkeys(names) for q in QUANTITIES]
    if o["save"]:
        ctx.check(set(dev.files) == {f"{nm} {q}.png" for nm, q in want}, "not-saved", f"{what}: saved {sorted(dev.files)}")
        for nm, q in want:
            path = f"{nm} {q}.png"
            namesakes = [i for i, k in enumerate(names) if k == nm]
            any_of(namesakes, lambda i: check_figure(ctx, w, dev.files[path]["figure"], i, nm, q, f"{what}, {path}"))
    else:
        ctx.check(not dev.files, "saved", f"{what}: saved {sorted(dev.files)}")
    if o["show"]:
        for nm, q in want:
            t = f"{nm} {q} vs. Time"
            namesakes = [i for i, k in enumerate(names) if k == nm]
            figures = [f for f in dev.figures_shown if f[0]["title"] == t]
            ctx.check(len(figures) >= len(namesakes), "not-shown", f"{what}: {t!r} shown {len(figures)} times for {len(namesakes)} airplanes")
            for i in namesakes:
                any_of(figures, lambda f: check_figure(ctx, w, f, i, nm, q, f"{what}, {t}"))


def any_of(candidates, check):
    """One of the candidates passes the check."""
    for n, c in enumerate(candidates):
        try:
            return check(c)
        except core.PropertyViolated:
            if n == len(candidates) - 1:
                raise


LABELS = [
    ("Induced Drag", "forces", 0),
    ("Side Force", "forces", 1),
    ("Lift", "forces", 2),
    ("Rolling Moment", "moments", 0),
    ("Pitching Moment", "moments", 1),
    ("Yawing Moment", "moments", 2),
    ("CDi", "force_coefficients", 0),
    ("CY", "force_coefficients", 1),
    ("CL", "force_coefficients", 2),
    ("Cl", "moment_coefficients", 0),
    ("Cm", "moment_coefficients", 1),
    ("Cn", "moment_coefficients", 2),
]


def loads(w, i):
    if w.kind != "unsteady":
        a = w.airplanes()[i]
        return {
            "forces": a.total_near_field_force_wind_axes,
            "moments": a.total_near_field_moment_wind_axes,
            "force_coefficients": a.total_near_field_force_coefficients_wind_axes,
            "moment_coefficients": a.total_near_field_moment_coefficients_wind_axes,
        }
    prob = w.solver.unsteady_problem
    p = "final_" if S.is_static(w.spec) else "final_mean_"
    return {k: getattr(prob, f"{p}near_field_{k}_wind_axes")[i] for k in ("forces", "moments", "force_coefficients", "moment_coefficients")}


def check_print(ctx, w, text, what):
    airplanes = w.airplanes(0 if w.kind == "unsteady" else None)
    lines = text.splitlines()
    heads = []
    for i, a in enumerate(airplanes):
        at = [k for k, ln in enumerate(lines) if ln.endswith(a.name + ":")]
        namesakes = [k for k, other in enumerate(airplanes) if other.name == a.name]
        ctx.check(len(at) == len(namesakes), "wrong-print", f"{what}: {len(at)} reports for {len(namesakes)} airplanes {a.name!r}")
        heads.append(at[namesakes.index(i)])
    ctx.check(heads == sorted(heads), "wrong-print", f"{what}: airplanes in another order")
    for i, a in enumerate(airplanes):
        block = lines[heads[i] + 1 : heads[i + 1] if i + 1 < len(heads) else len(lines)]
        want = loads(w, i)
        for lab, key, c in LABELS:
            hit = [ln.strip() for ln in block if ln.strip().startswith(lab + ":")]
            ctx.check(len(hit) == 1, "wrong-print", f"{what}: {lab} of {a.name!r} printed {len(hit)} times")
            n = number(hit[0].split(":", 1)[1])
            v = float(want[key][c])
            ctx.check(
                n is not None and abs(n - v) <= 0.000501 + 1e-9 * abs(v), "wrong-print", lambda: f"{what}: prints {hit[0]!r} of {a.name!r}; it is {v}"
            )
        ctx.count("printed numbers compared", len(LABELS))


# -------------------------------------------------------------------------- run


def caller(w, o, out):
    out_mod = boot.ps.output
    if o["op"] == "draw":
        return lambda: out_mod.draw(
            solver=w.solver,
            scalar_type=o["scalars"],
            show_streamlines=o["streamlines"],
            show_wake_vortices=o["wake"],
            save=o["save"],
            testing=o["testing"],
        )
    if o["op"] == "animate":
        return lambda: out_mod.animate(
            unsteady_solver=w.solver, scalar_type=o["scalars"], show_wake_vortices=o["wake"], save=o["save"], testing=o["testing"]
        )
    if o["op"] == "plot":
        return lambda: out_mod.plot_results_versus_time(unsteady_solver=w.solver, show=o["show"], save=o["save"])

    def p():
        with contextlib.redirect_stdout(out):
            if w.kind == "unsteady":
                out_mod.print_unsteady_results(unsteady_solver=w.solver)
            else:
                out_mod.print_steady_results(steady_solver=w.solver)

    return p


def measure(w, o):
    """Device operations, stream writes, lines and calls of a clean run, in a forked copy."""
    dev = display.Device()
    out = seams.SimStream()
    with display.installed(dev):
        _, lines, calls, solves = H.measure(caller(w, o, out))
    return dev.n, out.n, lines, calls, solves


def run(plan, ctx):
    here = os.getcwd()
    os.chdir(os.environ["PTERA_SCRATCH"])
    try:
        worlds = [World(w) for w in plan["worlds"]]
        for n, o in enumerate(plan["ops"]):
            step(ctx, worlds, n, o)
    finally:
        display.user_closes()
        os.chdir(here)


def step(ctx, worlds, n, o):
    w = worlds[o["world"]]
    if o["op"] == "resolve":
        w.b.op.alpha = o["alpha"]
        w.solve()
        ctx.count("solved again")
        ctx.event("resolve", n, o["alpha"])
        return
    opts = ",".join(f"{k}={o[k]}" for k in ("scalars", "save", "wake", "streamlines", "testing", "show") if k in o)
    what = f"output {n} ({o['op']} {opts} of {w.kind}, {H.describe_fault(o['fault'])})"
    fault = o["fault"]
    size = (1, 1, 1)
    at_dev = at_out = None
    if fault is not None:
        ndev, nout, lines, calls, solves = H.solo(lambda: measure(w, o))
        size = (lines, calls, solves)
        if fault["type"] == "device":
            at_dev = 1 + int(fault["frac"] * max(0, ndev - 1))
        elif fault["type"] == "stdout":
            at_out = 1 + int(fault["frac"] * max(0, nout - 1))
    dev = display.Device(at_dev, fault["kind"] if at_dev else "os")
    out = seams.SimStream(fail_at={at_out}, kind=fault["kind"]) if at_out else seams.SimStream()
    with display.installed(dev, close=o.get("windows closed", True)):
        res = H.faulty(caller(w, o, out), fault if fault and fault["type"] not in ("device", "stdout") else None, size, ctx)
    if dev.raised:
        res.fault, res.fired = dev.raised[0], dev.failed_op
        ctx.fault(f"device {dev.failed_op}/{fault['kind']}")
    elif out.raised:
        res.fault, res.fired = out.raised[0], "stdout"
        ctx.fault(f"stdout/{fault['kind']}")
    for k, other in enumerate(worlds):
        bad = O.diff(other.record, other.snapshot(), rtol=0.0)
        ctx.check(not bad, "results-changed", lambda: f"{what}: the results of problem {k} changed: {bad}")
    if res.error is not None:
        display.user_closes(everything=True)
        H.require_fault_reached(ctx, res, what)
        ctx.count("outputs failed")
    else:
        ctx.nontrivial = True
        ctx.count(f"{o['op']} complete")
        if o["op"] == "draw":
            check_draw(ctx, w, o, dev, what)
        elif o["op"] == "animate":
            check_animate(ctx, w, o, dev, what)
        elif o["op"] == "plot":
            check_plot(ctx, w, o, dev, what)
        else:
            check_print(ctx, w, out.text(), what)
    spec = w.spec
    ctx.state(o["op"], opts, w.kind, "movement" in spec and S.is_static(spec), spec.get("only_final"), (fault or {}).get("type"), res.fired, min(n, 2))
    ctx.event("output", n, o["op"], opts, res.fired, type(res.error).__name__, dev.n, len(dev.frames), sorted(dev.files), out.text())


def shrink(plan):
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            c = copy.deepcopy(plan)
            del c["ops"][i]
            yield c
        if plan["ops"][i]["fault"]:
            c = copy.deepcopy(plan)
            c["ops"][i]["fault"] = None
            yield c
    if len(plan["worlds"]) > 1:
        for i in range(2):
            c = copy.deepcopy(plan)
            c["worlds"] = [c["worlds"][i]]
            c["ops"] = [dict(o, world=0) for o in c["ops"] if o["world"] == i]
            if c["ops"]:
                yield c
    for i, w in enumerate(plan["worlds"]):
        for m in S.shrink_model(w["model"]):
            c = copy.deepcopy(plan)
            c["worlds"][i]["model"] = m
            yield c
