"""C16: repeating an analysis costs the same every time and leaves nothing behind."""

import atexit
import collections
import contextlib
import copy
import functools
import gc
import importlib
import io
import logging
import os
import random
import sys
import threading
import types
import warnings

import numpy as np

from .. import boot, core, display
from .. import harness as H
from .. import seams
from .. import spec as S

ID = "C16"
RUNS = {"quick": 340, "thorough": 12000}
RULE = (
    "A case is one history that is repeated, exactly the same, four times in one process: either a whole history of "
    "another property (solves, crashes, failed solves, trim searches, convergence studies, movement generation, torn "
    "airfoil files, building, drawing and printing with their faults) whose objects are all dropped, or a random "
    "sequence of runs, crashes, failed solves, edits, generations and reads on objects that are kept. After the second, third and "
    "fourth repetition the simulator compares what the process holds: live objects of the package, everything reachable "
    "from them and from the package's modules, open files, threads, log handlers, warning filters, exit and collector hooks, "
    "progress bars, plot windows, files; and the work done: calls of package functions, linear solves. Non-trivial: something ran; cases are "
    "distinct if their event logs differ."
)
STATE_MEASURE = "distinct (history kind, operation, function struck by a fault, log2 of what is held)"
REAL = ["everything the repeated histories use: geometry, meshing, movement, problems, solvers, trim, convergence, output, numpy, scipy, tqdm"]
STUB = ["clock, streams, disk, display as in the repeated history"]
ASSUMPTIONS = [
    "The first repetition may fill caches and import modules; it is not compared.",
    "Figures that were shown are closed by the user, and so are all windows after an output that failed.",
]

# histories of other properties that run in one process, and their share
OTHERS = ["c01", "c03", "c05", "c07", "c07", "c07", "c08", "c09", "c10", "c12", "c14", "c15"]
REPEATS = 4


def gen(rng, i, tier):
    if rng.random() < 0.5:
        name = rng.choice(OTHERS)
        other = importlib.import_module("sim.props." + name)
        return {"kind": name, "plan": other.gen(random.Random(rng.randrange(10**12)), rng.randrange(1000), tier), "rng": rng.randrange(10**6)}
    kind = rng.choice(["unsteady", "unsteady", "ring", "horseshoe"])
    if kind == "unsteady":
        model = S.gen_model(rng, steps=(2, 4), max_panels=14, op_move=0.3)
    else:
        model = S.gen_model(rng, kind="steady", max_panels=20)
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.65:
            op = {"op": "run", "copy": rng.random() < 0.15, "fault": None}
            if kind == "unsteady":
                op["kw"] = {"prescribed_wake": rng.random() < 0.6, "calculate_streamlines": rng.random() < 0.4}
            else:
                op["kw"] = {}
            op["kw"]["logging_level"] = rng.choice(["Debug", "Info", "Warning", "Critical"])
            if rng.random() < 0.5:
                op["fault"] = H.gen_fault(rng, ["line", "line", "solve"] + (["stderr"] if kind == "unsteady" else []))
        elif r < 0.75:
            op = {"op": "resolve"}  # another problem and solver of the kept airplanes
        elif r < 0.83:
            op = {"op": "measure"}
        elif r < 0.95:
            op = {"op": "generate", "own": rng.random() < 0.5, "fault": H.gen_fault(rng, ["line"]) if rng.random() < 0.4 else None}
        else:
            op = {"op": "print"}
        ops.append(op)
    return {"kind": "kept", "solver": kind, "model": model, "ops": ops, "rng": rng.randrange(10**6)}


# ---------------------------------------------------------------- what is held


def ours(t):
    m = getattr(t, "__module__", None)
    return isinstance(m, str) and (m == "pterasoftware" or m.startswith("pterasoftware."))


PLAIN = (dict, list, tuple, set, frozenset, collections.deque, types.MappingProxyType, types.CellType)
CODE = (types.FunctionType, types.MethodType, staticmethod, classmethod, property, functools.cached_property, functools.partial)


def holdings():
    """What the process holds that the package made or could have made."""
    gc.collect()
    live = [o for o in gc.get_objects() if ours(type(o)) and not isinstance(o, type)]
    held = {"objects": len(live)}
    for o in live:
        k = "objects of " + type(o).__name__
        held[k] = held.get(k, 0) + 1
    items = memory = 0
    seen = set()
    todo = list(live)
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "pterasoftware":
            todo.append(vars(mod))
    keep = [todo[:]]  # what was walked stays alive, so addresses are not reused meanwhile
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        t = type(o)
        if isinstance(o, np.ndarray):
            memory += o.nbytes
            items += 1
            if o.dtype == object:
                todo.extend(o.ravel().tolist())
        elif isinstance(o, (str, bytes, bytearray)):
            memory += len(o)
        elif isinstance(o, PLAIN):
            items += len(o) if hasattr(o, "__len__") else 1
            todo.extend(gc.get_referents(o))
        elif isinstance(o, type):
            if ours(o):
                todo.append(vars(o))
        elif isinstance(o, types.ModuleType):
            continue
        elif isinstance(o, CODE):
            if ours(o) or not isinstance(o, types.FunctionType):
                todo.extend(x for x in gc.get_referents(o) if x is not getattr(o, "__globals__", None))
        elif isinstance(o, functools._lru_cache_wrapper):
            items += o.cache_info().currsize
            todo.extend(gc.get_referents(o))
        elif ours(t):
            items += 1
            todo.extend(gc.get_referents(o))
        elif t.__module__ in ("collections", "weakref", "io", "_io", "queue", "array"):
            items += len(o) if hasattr(o, "__len__") else 1
            todo.extend(gc.get_referents(o))
    del keep
    held["items reachable from the package"] = items
    held["bytes of data reachable from the package"] = memory
    held["open files"] = len(os.listdir("/proc/self/fd"))
    held["threads"] = threading.active_count()
    loggers = [logging.root] + [x for x in logging.Logger.manager.loggerDict.values() if isinstance(x, logging.Logger)]
    held["log handlers"] = sum(len(x.handlers) for x in loggers)
    held["log filters"] = sum(len(x.filters) + sum(len(h.filters) for h in x.handlers) for x in loggers)
    held["warning filters"] = len(warnings.filters)
    held["exit hooks"] = atexit._ncallbacks()
    held["collector hooks"] = len(gc.callbacks)
    held["import paths"] = len(sys.path) + len(sys.meta_path) + len(sys.path_hooks)
    held["files"] = sum(len(f) for _, _, f in os.walk("."))
    held["windows that nobody closed"] = len(display.OPEN)
    if "matplotlib.pyplot" in sys.modules:
        held["figures that nobody closed"] = len(sys.modules["matplotlib.pyplot"].get_fignums())
    if "tqdm.std" in sys.modules:
        held["progress bars"] = len(sys.modules["tqdm.std"].tqdm._instances)
    return held


class Work:
    """Calls of package functions and linear solves while installed."""

    TOOL = 4

    def __init__(self):
        self.calls = self.solves = 0

    @contextlib.contextmanager
    def counted(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "ptera")
        root = os.path.join(boot.REPO, "pterasoftware") + os.sep

        def start(code, offset):
            if not code.co_filename.startswith(root):
                return mon.DISABLE
            self.calls += 1

        mon.register_callback(self.TOOL, mon.events.PY_START, start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        sol = seams.solve_faults()
        try:
            with sol.installed():
                yield self
        finally:
            self.solves = sol.n
            mon.set_events(self.TOOL, 0)
            mon.register_callback(self.TOOL, mon.events.PY_START, None)
            mon.free_tool_id(self.TOOL)
            mon.restart_events()


# --------------------------------------------------------------------- histories


class Foreign:
    """A history of another property, from building its objects to dropping them."""

    def __init__(self, plan):
        self.prop = importlib.import_module("sim.props." + plan["kind"])
        self.plan = plan["plan"]
        if hasattr(self.prop, "setup") and not getattr(self.prop, "_c16_ready", False):
            self.prop.setup()
            self.prop._c16_ready = True

    def __call__(self, ctx):
        inner = core.Ctx()
        verdict = "ok"
        try:
            self.prop.run(copy.deepcopy(self.plan), inner)
        except core.PropertyViolated as v:
            verdict = v.tag  # that property's business
        for k, n in inner.counters.items():
            if k.startswith("fault:"):
                ctx.count(k, n)
        ctx.sim_seconds += inner.sim_seconds
        ctx.state(self.prop.ID, verdict, *sorted(k for k in inner.counters if k.startswith("fault:")))
        return [verdict]


class Kept:
    """A history on objects that stay."""

    def __init__(self, plan):
        self.plan = plan
        self.kind = plan["solver"]
        self.b = S.build(plan["model"])
        self.solver = S.make_solver(self.kind, self.b)
        self.sizes = {}

    def size(self, n, op):
        if n not in self.sizes:
            s = S.make_solver(self.kind, S.build(self.plan["model"]))
            self.sizes[n] = H.measure(lambda: s.run(**op["kw"]))[1:]
        return self.sizes[n]

    def airplanes(self):
        return self.b.airplanes

    def __call__(self, ctx):
        out = []
        for n, op in enumerate(self.plan["ops"]):
            what = op["op"]
            if what == "run":
                s = copy.deepcopy(self.solver) if op["copy"] else self.solver
                r = H.faulty(lambda: s.run(**op["kw"]), op["fault"], self.size(n, op), ctx, "tick", 0)
                out.append(r.fired or type(r.error).__name__)
                ctx.state(self.kind, op["fault"] and op["fault"]["type"], r.fired)
                H.require_fault_reached(ctx, r, f"operation {n}")
                r = s = None
            elif what == "resolve":
                if self.kind == "unsteady":
                    s = S.unsteady_solver(self.b)
                    H.faulty(lambda: s.run(calculate_streamlines=False, logging_level="Critical"), None, (1, 1, 1), ctx)
                else:
                    s = S.steady_solver(self.kind, boot.ps.problems.SteadyProblem(airplanes=list(self.airplanes()), operating_point=self.b.op))
                    H.faulty(lambda: s.run(logging_level="Critical"), None, (1, 1, 1), ctx)
                s = None
            elif what == "measure":
                for a in self.airplanes():
                    for w in a.wings:
                        w.span, w.projected_area, w.wetted_area, w.standard_mean_chord, w.mean_aerodynamic_chord
                        for p in np.ravel(w.panels):
                            p.area, p.unit_normal, p.average_span, p.average_chord
                        for x in w.wing_cross_sections:
                            x.airfoil.add_control_surface(deflection=3.0, hinge_point=0.7)
            elif what == "generate":
                self.generate(op, ctx)
            elif what == "print":
                self.report()
        return out

    def generate(self, op, ctx):
        m = self.plan["model"]
        if "movement" not in m:
            return
        ps = boot.ps
        am = S.make_airplane_movement(m["movement"][0], self.airplanes()[0])
        if not op["own"]:
            am = self.kept_movement = getattr(self, "kept_movement", am)
        opm = ps.movement.OperatingPointMovement(base_operating_point=self.b.op)

        def make():
            am.generate_airplanes(num_steps=3, delta_time=0.01)
            opm.generate_operating_points(num_steps=3, delta_time=0.01)

        size = (1, 1, 1)
        if op["fault"]:
            if "generate" not in self.sizes:
                self.sizes["generate"] = H.measure(make)[1:]
            size = self.sizes["generate"]
        H.faulty(make, op["fault"], size, ctx)

    def report(self):
        done = self.solver
        with contextlib.redirect_stdout(io.StringIO()), contextlib.suppress(Exception):
            if self.kind == "unsteady":
                boot.ps.output.print_unsteady_results(unsteady_solver=done)
            else:
                boot.ps.output.print_steady_results(steady_solver=done)


def run(plan, ctx):
    kept = plan["kind"] == "kept"
    history = Kept(plan) if kept else Foreign(plan)
    before = None
    for n in range(REPEATS):
        np.random.seed(plan["rng"])
        random.seed(plan["rng"])
        work = Work()
        with work.counted():
            log = history(ctx)
        now = holdings()
        now["calls of package functions"] = work.calls
        now["linear solves"] = work.solves
        ctx.event(plan["kind"], n, log, now["objects"], work.calls)
        ctx.state(plan["kind"], now["objects"].bit_length(), work.calls.bit_length())
        ctx.count("repetitions")
        if n > 1:
            more = {k: (before.get(k, 0), v) for k, v in now.items() if v > before.get(k, 0)}
            grown = grown & set(more) if n > 2 else set(more)
            last = more
        before = now
    ctx.nontrivial = before["calls of package functions"] > 0
    ctx.count("holdings compared", REPEATS - 2)
    what = "runs on kept objects" if kept else f"a history of {plan['kind'].upper()}"
    worst = sorted(grown)
    ctx.check(
        not grown,
        "accumulates",
        lambda: f"repeating {what} again and again leaves more each time: " + "; ".join(f"{k} {last[k][0]} -> {last[k][1]}" for k in worst[:6]),
    )


def shrink(plan):
    if plan["kind"] != "kept":
        other = importlib.import_module("sim.props." + plan["kind"])
        if hasattr(other, "shrink"):
            for p in other.shrink(plan["plan"]):
                c = copy.deepcopy(plan)
                c["plan"] = p
                yield c
        return
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            c = copy.deepcopy(plan)
            del c["ops"][i]
            yield c
    for i, o in enumerate(plan["ops"]):
        for k in ("fault", "copy"):
            if o.get(k):
                c = copy.deepcopy(plan)
                c["ops"][i][k] = None
                yield c
    for m in S.shrink_model(plan["model"]):
        c = copy.deepcopy(plan)
        c["model"] = m
        yield c
