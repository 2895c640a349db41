"""C11: results depend on the model only, not on clock, randomness or environment."""

import contextlib
import copy
import gc
import logging
import os
import pickle
import random
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np

from .. import boot, core
from .. import harness as H
from .. import observe as O
from .. import runner
from .. import seams
from .. import spec as S

ID = "C11"
RUNS = {"quick": 420, "thorough": 12000}
RULE = (
    "A case is a random model and solver, a random environment (2-6 of: clock that stalls, jumps or runs "
    "backwards; random generator states; logging set-up; terminal kind; working directory; floating-point "
    "error mode; warning filters; garbage in uninitialised memory; garbage collector; thread; time zone and "
    "print options; a new interpreter with another hash seed, flags and environment variables) and possibly a fault. Results are compared with "
    "those of a neutral environment, and process-wide state and the model's parameters before and after. "
    "Non-trivial: at least two perturbations were active; cases are distinct if their event logs differ."
)
STATE_MEASURE = "distinct (solver, set of perturbations, fault type, function struck)"
REAL = ["geometry", "meshing", "movement", "problems", "all three solvers", "numba kernels", "numpy", "tqdm", "logging"]
STUB = ["clock, streams (simulated)", "numpy.empty/empty_like (filled with chosen garbage)"]
ASSUMPTIONS = [
    "The package's own loggers and their levels belong to the package.",
    "With floating-point errors or warnings turned into exceptions by the caller, such an exception is the caller's wish.",
]

DIMS = ["clock", "rng", "logging", "tty", "cwd", "fpe", "warnings", "memory", "gc", "thread", "misc"]

# Ways to start another interpreter: command-line flags and environment variables.
INTERPRETER = {
    "no assertions": (["-O"], {}),
    "development mode": (["-X", "dev"], {}),
    "kernels not compiled": ([], {"NUMBA_DISABLE_JIT": "1"}),
    "plain locale": ([], {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}),
    "several threads": ([], {"NUMBA_NUM_THREADS": "4", "OMP_NUM_THREADS": "4", "OPENBLAS_NUM_THREADS": "4"}),
    "another clock zone": ([], {"TZ": "Asia/Kathmandu"}),
    "another user": ([], {"USER": "nobody", "LOGNAME": "nobody", "COLUMNS": "17", "LINES": "3", "TERM": "dumb", "PTERA_DEBUG": "1", "CI": "true"}),
    "other memory": ([], {"PYTHONMALLOC": "debug", "MALLOC_PERTURB_": "165"}),
}


def gen(rng, i, tier):
    kind = rng.choice(["unsteady", "unsteady", "ring", "horseshoe"])
    if kind == "unsteady":
        model = S.gen_model(rng, steps=(2, 5), max_panels=14, fine=0.03)
    else:
        model = S.gen_model(rng, kind="steady", max_panels=24, fine=0.03)
    env = {}
    for d in rng.sample(DIMS, rng.randint(2, 6)):
        env[d] = {
            "clock": lambda: [rng.choice(["frozen", "jumpy", "backwards", "tick"]), rng.randrange(1000), rng.choice([0.0, 1.7e9, 4e9])],
            "rng": lambda: rng.randrange(1000),
            "logging": lambda: [rng.choice(["Warning", "Debug", "Info", "Error", "Critical"]), rng.choice(["none", "extra-handler", "disabled", "failing-handler"])],
            "tty": lambda: [rng.random() < 0.5, rng.choice(["utf-8", "ascii", "latin-1"])],
            "cwd": lambda: rng.choice(["other", "full-of-decoys", "full-of-decoys", "root"]),
            "fpe": lambda: rng.choice(["ignore", "warn", "print", "raise"]),
            "warnings": lambda: rng.choice(["ignore", "always", "error"]),
            "memory": lambda: rng.choice(["nan", "big", "negative", "noise"]),
            "gc": lambda: rng.choice(["off", "eager"]),
            "thread": lambda: True,
            "misc": lambda: rng.choice(["tz", "print", "rec"]),
        }[d]()
    fault = H.gen_fault(rng, ["line", "line", "solve"]) if rng.random() < 0.3 else None
    hashseed, options = None, []
    if i % 30 == 7:
        hashseed, fault = rng.randint(1, 9999), None
        options = rng.sample(sorted(INTERPRETER), rng.randint(0, 3))
    return {"kind": kind, "model": model, "env": env, "fault": fault, "hashseed": hashseed, "options": options}


class TtyStream(seams.SimStream):
    def __init__(self, tty, encoding):
        super().__init__()
        self.tty = tty
        self.enc = encoding

    @property
    def encoding(self):
        return self.enc

    def isatty(self):
        return self.tty


class BadHandler(logging.Handler):
    def emit(self, record):
        raise OSError("simulated: log handler failure")

    def handle(self, record):
        with contextlib.suppress(OSError):
            self.emit(record)


@contextlib.contextmanager
def garbage(mode):
    """numpy.empty hands out the garbage it is entitled to hand out."""
    real, real_like = np.empty, np.empty_like
    r = random.Random("memory/" + mode)

    def fill(a):
        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.size:
            if mode == "noise":
                a.flat = [r.uniform(-1e3, 1e3) for _ in range(min(a.size, 512))]
            else:
                a.fill({"nan": np.nan, "big": 1e300, "negative": -7.5}[mode])
        return a

    np.empty = lambda *a, **k: fill(real(*a, **k))
    np.empty_like = lambda *a, **k: fill(real_like(*a, **k))
    try:
        yield
    finally:
        np.empty, np.empty_like = real, real_like


@contextlib.contextmanager
def environment(env, cwd):
    """Install the perturbed environment; everything is put back afterwards."""
    with contextlib.ExitStack() as st:
        tty, enc = env.get("tty", [False, "utf-8"])
        err = TtyStream(tty, enc)
        st.enter_context(seams.streams(err=err, out=TtyStream(tty, enc)))
        mode, cseed, start = env.get("clock", ["tick", 0, 1.7e9])
        clk = seams.SimClock(mode, cseed, start)
        st.enter_context(clk.installed())
        if "rng" in env:
            np.random.seed(env["rng"])
            random.seed(env["rng"])
        if "logging" in env:
            how = env["logging"][1]
            root = logging.getLogger()
            h = None
            if how == "extra-handler":
                h = logging.StreamHandler(seams.SimStream())
            elif how == "failing-handler":
                h = BadHandler()
            elif how == "disabled":
                logging.disable(logging.CRITICAL)
                st.callback(logging.disable, logging.NOTSET)
            if h is not None:
                root.addHandler(h)
                st.callback(root.removeHandler, h)
        old = os.getcwd()
        d = env.get("cwd")
        os.chdir("/" if d == "root" else cwd)
        st.callback(os.chdir, old)
        if d == "full-of-decoys":
            for n in ("naca0012.dat", "geometry.py", "airfoils", "numpy.py", "pterasoftware.py"):
                with open(os.path.join(cwd, n), "w") as f:
                    f.write("1.0 nonsense\n")
            for airfoil in S.AIRFOILS:
                with open(os.path.join(cwd, airfoil + ".dat"), "w") as f:
                    f.write("decoy\n1 0\n0.5 0.3\n0 0\n0.5 -0.3\n1 0\n")
        if "fpe" in env:
            st.enter_context(np.errstate(all=env["fpe"]))
        if "warnings" in env:
            st.enter_context(warnings.catch_warnings())
            warnings.simplefilter(env["warnings"])
        if "memory" in env:
            st.enter_context(garbage(env["memory"]))
        if "gc" in env:
            th = gc.get_threshold()
            if env["gc"] == "off":
                gc.disable()
                st.callback(gc.enable)
            else:
                gc.set_threshold(20, 2, 2)
                st.callback(gc.set_threshold, *th)
        if env.get("misc") == "tz":
            old_tz = os.environ.get("TZ")
            os.environ["TZ"] = "Pacific/Kiritimati"
            st.callback(lambda: os.environ.pop("TZ") if old_tz is None else os.environ.__setitem__("TZ", old_tz))
        elif env.get("misc") == "print":
            st.enter_context(np.printoptions(precision=1, threshold=1))
        elif env.get("misc") == "rec":
            r = sys.getrecursionlimit()
            sys.setrecursionlimit(r + 777)
            st.callback(sys.setrecursionlimit, r)
        yield clk


def process_state(cwd):
    """Process-wide state a solve has no business changing."""
    ns = np.random.get_state()
    pkg = []
    for root, dirs, files in os.walk(boot.PKG):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            p = os.path.join(root, f)
            pkg.append((os.path.relpath(p, boot.PKG), os.path.getsize(p)))
    return {
        "numpy random state": (ns[0], ns[1].tobytes(), ns[2:]),
        "random state": random.getstate(),
        "numpy error settings": (np.geterr(), np.geterrcall()),
        "working directory": os.getcwd(),
        "files in the working directory": sorted((f, os.path.getsize(os.path.join(cwd, f))) for f in os.listdir(cwd)),
        "files of the package": pkg,
        "warning filters": list(warnings.filters),
        "environment variables": dict(os.environ),
        "stdout and stderr": (id(sys.stdout), id(sys.stderr)),
        "root logger": (logging.getLogger().level, [id(h) for h in logging.getLogger().handlers], logging.root.manager.disable),
        "trace function": sys.gettrace(),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "numpy print options": {k: v for k, v in np.get_printoptions().items()},
        "recursion limit": sys.getrecursionlimit(),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "threads": threading.active_count(),
        "umask": _umask(),
    }


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def model_params(b):
    d = {}
    for i, a in enumerate(b.airplanes):
        for k, v in O.airplane_params(a).items():
            d[f"airplane{i}.{k}"] = v
        d[f"airplane{i}.panels"] = O.panel_geometry(a)
    for k, v in O.op_params(b.op).items():
        d["op." + k] = v
    if b.problem is not None:
        for k, sp in enumerate(b.problem.steady_problems):
            for i, a in enumerate(sp.airplanes):
                for n, v in O.airplane_params(a).items():
                    d[f"step{k}.airplane{i}.{n}"] = v
                d[f"step{k}.airplane{i}.panels"] = O.panel_geometry(a)
            for n, v in O.op_params(sp.operating_point).items():
                d[f"step{k}.op.{n}"] = v
        d["delta_time"] = O.arr(b.problem.delta_time)
        d["first"] = O.arr([b.problem.first_averaging_step, b.problem.first_results_step])
    return d


def run_kw(kind, model, level="Warning"):
    return S.run_kwargs(model, logging_level=level) if kind == "unsteady" else {"logging_level": level}


def neutral(kind, model):
    box = {}

    def body():
        box["b"] = S.build(model)
        box["s"] = S.make_solver(kind, box["b"])
        box["s"].run(**run_kw(kind, model))

    _, lines, calls, solves = H.measure(body)
    return O.results(box["s"], kind), model_params(box["b"]), (lines, calls, solves)


def plain(kind, model):
    """For a new interpreter: the results only."""
    b = S.build(model)
    s = S.make_solver(kind, b)
    with seams.streams():
        s.run(**run_kw(kind, model))
    return O.results(s, kind)


def other_interpreter(plan):
    """The same model in a new interpreter with another hash seed and other options."""
    scratch = tempfile.mkdtemp(dir=os.environ["PTERA_SCRATCH"])
    src, dst = os.path.join(scratch, "in.pkl"), os.path.join(scratch, "out.pkl")
    with open(src, "wb") as f:
        pickle.dump((plan["kind"], plan["model"]), f)
    env = dict(os.environ, PYTHONHASHSEED=str(plan["hashseed"]), PTERA_SCRATCH=scratch)
    flags = []
    for name in plan["options"]:
        flags += INTERPRETER[name][0]
        env.update(INTERPRETER[name][1])
    code = (
        "import pickle,sys\n"
        "from sim import boot\nboot.load(warm=False)\n"
        "from sim.props import c11\n"
        f"k,m=pickle.load(open({src!r},'rb'))\n"
        f"pickle.dump(c11.plain(k,m),open({dst!r},'wb'))\n"
    )
    r = subprocess.run([sys.executable, *flags, "-W", "ignore", "-c", code], cwd=runner.VERIF, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise core.HarnessError("the other interpreter failed: " + r.stderr[-2000:])
    with open(dst, "rb") as f:
        return pickle.load(f)


def run(plan, ctx):
    kind, model, env = plan["kind"], plan["model"], plan["env"]
    ref, params, size = H.solo(lambda: neutral(kind, model))
    if plan["hashseed"] is not None:
        obs = other_interpreter(plan)
        d = O.diff(ref, obs, rtol=1e-8)
        ctx.check(not d, "environment-dependence", f"{kind} results in a new interpreter with hash seed {plan['hashseed']} ({plan['options']}) differ: {d}")
        ctx.count("perturbation: hash seed")
        for n in plan["options"]:
            ctx.count("perturbation: " + n)
    cwd = tempfile.mkdtemp(dir=os.environ["PTERA_SCRATCH"])
    level = env.get("logging", ["Warning"])[0]
    strict = env.get("fpe") == "raise" or env.get("warnings") == "error"
    names = sorted(env)
    for n in names:
        ctx.count("perturbation: " + n)
    ctx.nontrivial = len(names) >= 2
    got = {}

    def body():
        b = S.build(model)
        s = S.make_solver(kind, b)
        got["b"], got["s"] = b, s
        s.run(**run_kw(kind, model, level))

    def in_env(fault):
        if env.get("thread"):
            box = {}

            def target():
                try:
                    with np.errstate(**np.geterr() if "fpe" not in env else dict(all=env["fpe"])):
                        body()
                except BaseException as e:
                    box["e"] = e

            t = threading.Thread(target=target)
            t.start()
            t.join()
            if "e" in box:
                raise box["e"]
        else:
            body()

    with environment(env, cwd) as clk:
        before = process_state(cwd)
        error, fired = None, None
        if plan["fault"] is not None and not env.get("thread"):
            error, fired = crash(plan["fault"], size, body, ctx)
        else:
            try:
                in_env(None)
            except Exception as e:
                error = e
        after = process_state(cwd)
        for k in before:
            ctx.check(before[k] == after[k], "side-effect", lambda: f"{kind} solve ({env}, fault {plan['fault']} struck {fired}) changed the {k}")
        ctx.count("clock reads", clk.calls)
        if clk.jumps or clk.backs:
            ctx.fault("clock jump", clk.jumps + clk.backs)
        ctx.sim_seconds += min(clk.span, 1e9) if "clock" in env else S.sim_time(model)
    ctx.event("env", names, plan["fault"], fired, type(error).__name__)
    ctx.state(kind, tuple(names), (plan["fault"] or {}).get("type"), fired)
    if "b" in got:
        d = O.diff(params, model_params(got["b"]), rtol=1e-12)
        ctx.check(not d, "model-altered", f"{kind} solve ({env}, fault struck {fired}) changed the model's own parameters: {d}")
    if error is not None:
        if fired is not None:
            return
        if strict and isinstance(error, (FloatingPointError, Warning)):
            ctx.count("stopped at the caller's wish")
            return
        raise error
    obs = O.results(got["s"], kind)
    d = O.diff(ref, obs)
    ctx.check(not d, "environment-dependence", f"{kind} results in the environment {env} differ: {d}")
    O.feed(ctx, obs, only=["circulation", "total", "final", "streamlines"])
    ctx.count("results compared")


def crash(fault, size, body, ctx):
    """Like harness.faulty, but inside the environment that is already installed."""
    from .. import sched

    lines, calls, solves = size
    probe = sched.LineProbe()
    sol = seams.solve_faults()
    if fault["type"] == "solve":
        sol.fail_at = {1 + int(fault["frac"] * max(0, solves - 1))}
        sol.kind = fault["kind"]
    else:
        H.arm(probe, fault, lines, calls)
    error = None
    with sol.installed():
        try:
            probe.run(body) if probe.armed else body()
        except BaseException as e:
            error = e
    fired = probe.fired[0] if probe.fired else ("numpy.linalg.solve" if sol.raised else None)
    if fired is not None:
        ctx.fault(f"{fault['type']}/{fault['kind']}")
    return error, fired


def shrink(plan):
    for k in sorted(plan["env"]):
        c = copy.deepcopy(plan)
        del c["env"][k]
        yield c
    for k in range(len(plan["options"])):
        c = copy.deepcopy(plan)
        del c["options"][k]
        yield c
    for k in ("fault", "hashseed"):
        if plan[k] is not None:
            c = copy.deepcopy(plan)
            c[k] = None
            yield c
    for m in S.shrink_model(plan["model"]):
        c = copy.deepcopy(plan)
        c["model"] = m
        yield c
