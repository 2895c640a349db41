"""C13: each entry of the GUI's example menu runs the example it names, every time."""

import contextlib
import copy
import importlib
import importlib.util
import os
import re
import sys

from .. import boot, core
from .. import seams

ID = "C13"
RUNS = {"quick": 500, "thorough": 20000}
RULE = (
    "A case is the application's real main window (Qt, offscreen) in front of a scratch examples directory whose "
    "programs record that they ran, with random other entries, a random order of directory listings and a history of "
    "3-14 events: choices from the menu (any entry, repeated or nested while another example runs), examples that "
    "fail part-way, examples edited, removed and restored, entries added or removed, failing output streams, a "
    "changed working directory. Non-trivial: at least two examples ran; cases are distinct if their event logs differ."
)
STATE_MEASURE = "distinct (entry, earlier choices of it, earlier failure of it, event before, outcome, depth)"
REAL = ["main.py (main window, menu actions)", "pterasoftware.ui_resources", "Qt (PySide6, offscreen platform)", "Python's import system"]
STUB = ["the example programs (recording stand-ins)", "directory listing order", "streams (simulated)"]
ASSUMPTIONS = ["The directory of main.py is on the import path, as when the application is started."]

OTHERS = [
    "README.md",
    "notes.txt",
    ".DS_Store",
    "aaa_my_wing.py",
    "my_example.py",
    "zzz.py",
    "old.py.bak",
    "data.csv",
    "Thumbs.db",
    "s_helper.py",
    "unsteady_extra.py",
    "backup/",
]
FAULTS = ["error", "os", "linalg", "memory"]


def setup():
    os.environ["QT_QPA_PLATFORM"] = "offscreen"
    with seams.streams():
        import PySide6.QtWidgets  # noqa: F401
        import PySide6.QtGui  # noqa: F401


def example_names():
    d = os.path.join(boot.REPO, "examples")
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith(".py") and f != "__init__.py")


def gen(rng, i, tier):
    n = rng.choice([3, 5, 8, 14])
    fav = [rng.randrange(10) for _ in range(rng.choice([1, 2, 4]))]
    events = []
    for _ in range(n):
        k = rng.choice(fav) if rng.random() < 0.6 else rng.randrange(10)
        r = rng.random()
        if r < 0.72:
            e = {"do": "choose", "entry": k, "fault": None, "nested": None}
            q = rng.random()
            if q < 0.2:
                e["fault"] = {"type": "example", "kind": rng.choice(FAULTS), "late": rng.random() < 0.6}
            elif q < 0.26:
                e["fault"] = {"type": "stdout", "at": rng.choice([1, 1, 2, 3])}
            elif q < 0.36:
                e["nested"] = rng.choice([k, rng.choice(fav), rng.randrange(10)])
            events.append(e)
        elif r < 0.8:
            events.append({"do": "edit", "entry": k})
        elif r < 0.86:
            events.append({"do": "remove", "entry": k})
        elif r < 0.9:
            events.append({"do": "break", "entry": k})
        elif r < 0.95:
            events.append({"do": "other", "name": rng.choice(OTHERS)})
        elif r < 0.98:
            events.append({"do": "clutter"})
        else:
            events.append({"do": "window"})
    return {"events": events, "others": rng.sample(OTHERS, rng.randrange(5)), "order": rng.randrange(10**6), "pycache": rng.random() < 0.3}


PROGRAM = """import sim_examples_log as _log
_log.start("{name}", {version})
value = {version}
_log.end("{name}", {version})
"""


class Log:
    """What the stand-in examples report; decides what happens inside them."""

    def __init__(self):
        self.started = []
        self.ended = []
        self.fault = None
        self.inside = None
        self.raised = []

    def start(self, name, version):
        self.started.append((name, version))
        if self.inside is not None:
            f, self.inside = self.inside, None
            f()
        if self.fault and not self.fault["late"]:
            self.fail()

    def end(self, name, version):
        if self.fault:
            self.fail()
        self.ended.append((name, version))

    def fail(self):
        e = core.make_fault(self.fault["kind"], "(in the example)")
        self.fault = None
        self.raised.append(e)
        raise e


class Directory:
    """The scratch examples package."""

    def __init__(self, root, names, plan):
        self.root = os.path.join(root, "examples")
        os.mkdir(self.root)
        self.clock = 1_700_000_000
        self.version = {n: 0 for n in names}
        self.state = {}
        self.write("__init__.py", "")
        for n in names:
            self.restore(n)
        for o in plan["others"]:
            self.other(o)

    def write(self, name, text):
        p = os.path.join(self.root, name)
        with open(p, "w") as f:
            f.write(text)
        self.stamp(p)

    def stamp(self, p=None):
        self.clock += 10
        for q in (p, self.root):
            if q is not None:
                os.utime(q, (self.clock, self.clock))

    def restore(self, n):
        self.version[n] += 1
        self.state[n] = "ok"
        self.write(n + ".py", PROGRAM.format(name=n, version=self.version[n]))

    def remove(self, n):
        if self.state[n] != "removed":
            os.unlink(os.path.join(self.root, n + ".py"))
            self.state[n] = "removed"
            self.stamp()

    def torn(self, n):
        self.state[n] = "broken"
        self.version[n] += 1
        self.write(n + ".py", PROGRAM.format(name=n, version=self.version[n])[:-25] + "(\n")

    def other(self, o):
        p = os.path.join(self.root, o.rstrip("/"))
        if os.path.exists(p):
            return
        if o.endswith("/"):
            os.mkdir(p)
            self.stamp()
        else:
            self.write(o, "import sim_examples_log as _log\n_log.start('other', 0)\n_log.end('other', 0)\n")


@contextlib.contextmanager
def listing(root, order):
    """Directory listings of the examples come in a random order."""
    import random

    real = os.listdir, os.scandir
    rng = random.Random(f"listing/{order}")

    def is_examples(path):
        return os.path.basename(os.path.realpath(os.fspath(path) if path is not None else ".")) == "examples"

    def listdir(path="."):
        out = real[0](path)
        if not isinstance(path, int) and is_examples(path):
            out = sorted(out)
            rng.shuffle(out)
        return out

    class Scan:
        def __init__(self, path):
            with real[1](path) as it:
                self.items = sorted(it, key=lambda e: e.name)
            rng.shuffle(self.items)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __iter__(self):
            return iter(self.items)

        def close(self):
            pass

    def scandir(path="."):
        if not isinstance(path, int) and is_examples(path):
            return Scan(path)
        return real[1](path)

    os.listdir, os.scandir = listdir, scandir
    try:
        yield
    finally:
        os.listdir, os.scandir = real


def words(text):
    return "_".join(re.findall(r"[a-z0-9]+", text.lower()))


def named(label, names):
    """The example that a menu entry names: the longest one its text starts with."""
    t = words(re.sub(r"^\s*Example\s+\d+\s*:", "", label))
    hits = [n for n in names if t == n] or [n for n in names if t.startswith(n)]
    return max(hits, key=len) if hits else None


def run(plan, ctx):
    import types

    names = example_names()
    here = os.getcwd()
    app_dir = os.path.join(here, "app")
    os.mkdir(app_dir)
    log = Log()
    mod = types.ModuleType("sim_examples_log")
    mod.start, mod.end = log.start, log.end
    sys.modules["sim_examples_log"] = mod
    for k in [k for k in sys.modules if k == "examples" or k.startswith("examples.")]:
        del sys.modules[k]
    d = Directory(app_dir, names, plan)
    if plan["pycache"]:
        os.mkdir(os.path.join(d.root, "__pycache__"))
    os.chdir(app_dir)
    sys.path.insert(0, app_dir)
    importlib.invalidate_caches()
    try:
        with listing(d.root, plan["order"]):
            history(plan, ctx, d, log, names)
    finally:
        sys.path.remove(app_dir)
        os.chdir(here)


def history(plan, ctx, d, log, names):
    with seams.streams():
        spec = importlib.util.spec_from_file_location("main", os.path.join(boot.REPO, "main.py"))
        main = importlib.util.module_from_spec(spec)
        sys.modules["main"] = main
        spec.loader.exec_module(main)
        from PySide6.QtWidgets import QApplication

        app = QApplication([])
        window = main.MainWindow()
    errors = []
    sys.excepthook = lambda t, e, tb: errors.append(e)
    sys.unraisablehook = lambda u: errors.append(u.exc_value)

    def entries():
        acts = [a for a in window.menuExamples.actions() if not a.isSeparator()]
        ctx.check(len(acts) == len(names), "menu", f"{len(acts)} menu entries for {len(names)} examples")
        labels = [named(a.text(), names) for a in acts]
        ctx.check(sorted(map(str, labels)) == names, "menu", lambda: f"the entries name {labels}")
        return list(zip(acts, labels))

    times = {n: 0 for n in names}
    failed = set()
    before = "start"
    menu = entries()
    for n, e in enumerate(plan["events"]):
        if e["do"] != "choose":
            name = menu[e["entry"]][1] if "entry" in e else None
            if e["do"] == "edit":
                d.restore(name)
            elif e["do"] == "remove":
                d.remove(name)
            elif e["do"] == "break":
                d.torn(name)
            elif e["do"] == "other":
                d.other(e["name"])
            elif e["do"] == "clutter":
                for o in OTHERS:
                    d.other(o)
            elif e["do"] == "window":
                with seams.streams():
                    window.close()
                    window = main.MainWindow()
                menu = entries()
            ctx.event(e["do"], name)
            ctx.count("directory events")
            before = e["do"]
            continue
        action, name = menu[e["entry"]]
        what = f"event {n}: choosing {' '.join(action.text().split())!r}"
        log.started.clear()
        log.ended.clear()
        log.raised.clear()
        errors.clear()
        fault = e["fault"]
        log.fault = fault if fault and fault["type"] == "example" else None
        want = [name]
        if e["nested"] is not None:
            inner, inner_name = menu[e["nested"]]
            log.inside = inner.trigger
            want = [name, inner_name]
        out = seams.SimStream(fail_at={fault["at"]}, kind="os") if fault and fault["type"] == "stdout" else seams.SimStream()
        state = d.state[name]
        if e["nested"] is not None and state == "ok" and d.state[want[1]] != "ok":
            want = [name]
        with seams.streams(out=out):
            try:
                action.trigger()
                app.processEvents()
            except BaseException as x:
                errors.append(x)
        log.fault = log.inside = None
        ran = [x for x, _ in log.started]
        if fault and fault["type"] == "example" and log.raised:
            ctx.fault(f"failing example/{fault['kind']}")
        if e["nested"] is not None:
            ctx.fault("nested choice")
        if out.raised:
            ctx.fault("stdout/os")
        if state != "ok":
            ctx.fault(f"{state} example file")
            ctx.check(not ran, "wrong-example", f"{what}: its file is {state}, and {ran} ran")
            ctx.check(errors, "failure-hidden", f"{what}: its file is {state} and nothing was reported")
            failed.add(name)
            outcome = state
        elif out.raised and not ran:
            ctx.check(errors, "failure-hidden", f"{what}: did not run and nothing was reported")
            outcome = "stream"
        else:
            ctx.check(
                ran == want,
                "wrong-example" if set(ran) - set(want) else "not-run",
                lambda: f"{what} (chosen {times[name]} times before): ran {ran} instead of {want}; errors {errors[:2]}",
            )
            for x, v in log.started:
                ctx.check(v == d.version[x], "stale-example", f"{what}: ran version {v} of {x}, which is now version {d.version[x]}")
            if log.raised:
                ctx.check(any(core.in_chain(x, log.raised[0]) for x in errors), "failure-hidden", f"{what}: the example failed and nothing was reported")
                failed.add(name)
                outcome = "example failed"
            else:
                ctx.check(len(log.ended) == len(want), "not-run", f"{what}: only {log.ended} reached their end; errors {errors[:2]}")
                real = [x for x in errors if not isinstance(x, core.SimOSError)]
                if len(want) == 1 and e["nested"] is None:
                    ctx.check(not real, "unexpected-exception", lambda: f"{what}: {real[:2]}")
                outcome = "ran"
        ctx.state(e["entry"], min(times[name], 2), name in failed, before, outcome, e["nested"] is not None)
        times[name] += 1
        ctx.count("choices")
        ctx.count("examples run", len(ran))
        ctx.event("choose", name, list(log.started), list(log.ended), [type(x).__name__ for x in errors])
        before = outcome
    ctx.nontrivial = ctx.counters.get("examples run", 0) > 1


def shrink(plan):
    for i in range(len(plan["events"])):
        if len(plan["events"]) > 1:
            c = copy.deepcopy(plan)
            del c["events"][i]
            yield c
        e = plan["events"][i]
        if e["do"] == "choose":
            for k in ("fault", "nested"):
                if e[k] is not None:
                    c = copy.deepcopy(plan)
                    c["events"][i][k] = None
                    yield c
    for i in range(len(plan["others"])):
        c = copy.deepcopy(plan)
        del c["others"][i]
        yield c
    if plan["pycache"]:
        c = copy.deepcopy(plan)
        c["pycache"] = False
        yield c
