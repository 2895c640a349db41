"""C10: airfoil data is loaded completely or not at all, whatever the disk does."""

import builtins
import contextlib
import copy
import importlib
import io
import os
import re
import shutil
import sys
import tempfile

import numpy as np

from .. import boot, core
from .. import observe as O
from .. import sched

ID = "C10"
RUNS = {"quick": 1400, "thorough": 40000}
RULE = (
    "A case is 1-3 database airfoils (and sometimes a generated or an unknown one) and a random sequence "
    "of 2-7 loads under disk faults (missing, directory in its place, link loop, I/O error at open or part-"
    "way, short reads, torn, truncated, empty, overwritten and bit-flipped content, interrupts, crashes at "
    "executed lines), of repairs, and of edits to loaded airfoils. A load that returns must hold exactly "
    "what the file lists, by an independent parser; a load of a healthy file must succeed. Non-trivial: at "
    "least one fault struck; cases are distinct if their event logs differ."
)
STATE_MEASURE = "distinct (previous operation, operation, fault, where it struck, outcome)"
REAL = ["geometry.Airfoil", "importlib.resources", "the file system (scratch copy of the airfoil files)", "scipy interpolation"]
STUB = ["open/read failures and short reads (simulated file layer)"]
ASSUMPTIONS = [
    "Text from a line that begins with a letter onwards is commentary, not coordinates (10 database files have some).",
    "Corruption that leaves a well-formed coordinate list cannot be told from data: then the list on disk is what must be loaded.",
]

NUMBER = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z")
DISK = ["missing", "directory", "loop", "eio", "truncate", "empty", "flip", "flip", "garbage", "garbage", "zeros", "delete", "letters"]
LAYER = ["open-error", "read-error", "read-error", "short-reads", "interrupt-open", "interrupt-read"]

NAMES = None


def database():
    global NAMES
    if NAMES is None:
        d = os.path.join(boot.PKG, "airfoils")
        NAMES = sorted(f[:-4] for f in os.listdir(d) if f.endswith(".dat") and f == f.lower())
    return NAMES


def setup():
    database()


def gen(rng, i, tier):
    names = rng.sample(database(), rng.choice([1, 2, 2, 3]))
    if rng.random() < 0.15:
        names.append(rng.choice(["naca2412", "naca0012", "naca6409"]))
    if rng.random() < 0.1:
        names.append("no-such-airfoil")
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < 0.75 or not ops:
            o = {
                "op": "load",
                "name": rng.choice(names),
                "repanel": rng.random() < 0.6,
                "n": rng.choice([20, 40, 41, 100]),
                "style": rng.choice(["plain", "plain", "upper", "padded"]),
                "fault": None,
            }
            if rng.random() < 0.6:
                o["fault"] = gen_fault(rng)
            ops.append(o)
        elif r < 0.88:
            ops.append({"op": "scribble", "which": rng.randrange(8), "what": rng.choice(["coordinates", "mcl_coordinates", "thickness"])})
        else:
            ops.append({"op": "flap", "which": rng.randrange(8), "hinge": round(rng.uniform(0.5, 0.9), 2), "deflection": round(rng.uniform(-15, 15), 1)})
    # whatever happened, every name must load afterwards
    for n in names:
        ops.append({"op": "load", "name": n, "repanel": True, "n": 30, "style": "plain", "fault": None})
    return {"ops": ops}


def gen_fault(rng):
    r = rng.random()
    if r < 0.6:
        t = rng.choice(DISK)
        f = {"type": t}
        if t in ("truncate", "flip", "garbage", "zeros", "delete", "letters"):
            f["frac"] = round(rng.random(), 6)
        if t == "flip":
            f["byte"] = rng.randrange(1, 256)
            f["count"] = rng.choice([1, 1, 2, 5])
        if t == "garbage":
            f["text"] = rng.choice(["?", "--", "1..2", "0.5.5", " @@ ", "#", "1,0", "\u00e9", "1e", ";", "*", "%"])
        if t == "zeros":
            f["len"] = rng.choice([1, 16, 512])
        if t == "delete":
            f["len"] = rng.choice([1, 3, 16, 64, 512])
        return f
    if r < 0.85:
        t = rng.choice(LAYER)
        f = {"type": t}
        if t in ("open-error",):
            f["errno"] = rng.choice([5, 12, 13, 24])
        if t in ("read-error", "interrupt-read"):
            f["errno"] = 5
            f["frac"] = round(rng.random(), 4)
        if t == "short-reads":
            f["chunk"] = rng.choice([1, 2, 7, 64])
        return f
    return {"type": "line", "at": int(2 ** rng.uniform(0, 6.3)), "kind": rng.choice(["interrupt", "memory", "error", "os"])}


# ------------------------------------------------------------------ the disk


class Disk:
    """A scratch airfoils package the library is pointed at."""

    def __init__(self):
        self.root = tempfile.mkdtemp(dir=os.environ["PTERA_SCRATCH"])
        self.pkg = os.path.join(self.root, "pterasoftware")
        self.dir = os.path.join(self.pkg, "airfoils")
        os.makedirs(self.dir)
        src = os.path.join(boot.PKG, "airfoils")
        if os.path.exists(os.path.join(src, "__init__.py")):
            shutil.copy(os.path.join(src, "__init__.py"), self.dir)
        self.src = os.path.realpath(src)
        self.good = {}

    def attach(self):
        ps = boot.ps
        for m in [m for m in sys.modules if m.startswith("pterasoftware.airfoils")]:
            del sys.modules[m]
        if hasattr(ps, "airfoils"):
            del ps.airfoils
        ps.__path__ = [self.pkg]
        importlib.invalidate_caches()

    def path(self, name):
        return os.path.join(self.dir, name + ".dat")

    def install(self, name):
        src = os.path.join(self.src, name + ".dat")
        if os.path.exists(src):
            with open(src, "rb") as f:
                self.good[name] = f.read()
            self.restore(name)
        else:
            self.good[name] = None

    def clear(self, name):
        p = self.path(name)
        if os.path.islink(p) or os.path.isfile(p):
            os.unlink(p)
        elif os.path.isdir(p):
            os.rmdir(p)

    def restore(self, name):
        self.clear(name)
        if self.good[name] is not None:
            self.put(name, self.good[name])

    def put(self, name, data):
        self.clear(name)
        with open(self.path(name), "wb") as f:
            f.write(data)

    def corrupt(self, name, f):
        """Apply a content or file-system fault; returns the bytes now on disk or None."""
        t, good = f["type"], self.good[name]
        p = self.path(name)
        if t in ("missing", "directory", "loop", "eio"):
            self.clear(name)
            if t == "directory":
                os.mkdir(p)
            elif t == "loop":
                os.symlink(p, p)
            elif t == "eio":
                os.symlink("/proc/self/mem", p)
            return None
        at = int(f.get("frac", 0) * len(good))
        if t == "truncate":
            data = good[:at]
        elif t == "empty":
            data = b""
        elif t == "flip":
            b = bytearray(good)
            for k in range(f["count"]):
                if b:
                    b[(at + 37 * k) % len(b)] ^= f["byte"]
            data = bytes(b)
        elif t == "garbage":
            data = good[:at] + f["text"].encode() + good[at:]
        elif t == "letters":
            data = good[:at] + b"x" + good[at + 1 :]
        elif t == "zeros":
            data = good[:at] + b"\0" * min(f["len"], len(good) - at) + good[at + f["len"] :]
        elif t == "delete":
            data = good[:at] + good[at + f["len"] :]
        else:
            raise core.HarnessError(t)
        self.put(name, data)
        return data


class SimRaw(io.RawIOBase):
    def __init__(self, path, fault, fired):
        self.data = io.BytesIO(io.FileIO(path).readall())
        size = len(self.data.getbuffer())
        self.limit = None
        self.chunk = None
        self.fault = None
        self.fired = fired
        if fault["type"] in ("read-error", "interrupt-read"):
            self.limit = int(fault["frac"] * size)
            self.fault = make(fault)
        elif fault["type"] == "short-reads":
            self.chunk = fault["chunk"]

    def readable(self):
        return True

    def readinto(self, b):
        n = len(b)
        if self.chunk:
            n = min(n, self.chunk)
            self.fired.append("short read")
        if self.limit is not None:
            left = self.limit - self.data.tell()
            if left <= 0:
                self.fired.append("read")
                raise self.fault
            n = min(n, left)
        got = self.data.read(n)
        b[: len(got)] = got
        return len(got)


def make(fault):
    if fault["type"].startswith("interrupt"):
        return core.SimInterrupt("simulated interrupt")
    return core.SimOSError(fault["errno"], "simulated: " + os.strerror(fault["errno"]))


@contextlib.contextmanager
def file_layer(disk, fault, fired):
    """Open and read failures for files under the scratch airfoils directory."""
    real = io.open

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            path = os.fspath(file)
        except TypeError:
            path = ""
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path.endswith(".dat") and os.path.realpath(path).startswith(disk.src + os.sep):
            # Code that asks for the package's own folder gets the scratch copy, too.
            file = path = os.path.join(disk.dir, os.path.basename(path))
        if fault is None or not path.endswith(".dat") or not os.path.abspath(path).startswith(disk.dir + os.sep):
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if fault["type"] in ("open-error", "interrupt-open"):
            fired.append("open")
            raise make(fault)
        if not os.path.isfile(path):
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = SimRaw(path, fault, fired)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)

    io.open = builtins.open = sim_open
    try:
        yield
    finally:
        io.open = builtins.open = real


# ---------------------------------------------------------------- the oracle


def listed(data):
    """The coordinates a file lists: an array, None (malformed), or "unclear"."""
    if data is None:
        return None
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        return None
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    lines = text.split("\n")[1:]
    values = []
    unclear = False
    for line in lines:
        if any(ord(c) < 32 and c != "\t" or ord(c) > 126 for c in line):
            unclear = True
        if line.strip()[:1].isalpha():
            break
        for tok in line.split():
            if not NUMBER.match(tok):
                try:
                    float(tok)
                except ValueError:
                    return None
                unclear = True
                continue
            values.append(float(tok))
    if unclear:
        return "unclear"
    if not values or len(values) % 2:
        return None
    return np.array(values).reshape(-1, 2)


def twin(coords, o):
    """What an airfoil with the given coordinates is, or None if it cannot be built."""
    try:
        return snap(boot.ps.geometry.Airfoil(name="twin", coordinates=coords.copy(), repanel=o["repanel"], n_points_per_side=o["n"]))
    except Exception:
        return None


def snap(a):
    return {k: O.arr(getattr(a, k)) for k in ("coordinates", "mcl_coordinates", "upper_minus_mcl", "thickness")}


def same(x, y):
    return not O.diff(x, y, rtol=1e-12)


def run(plan, ctx):
    ps = boot.ps
    disk = Disk()
    for o in plan["ops"]:
        if o["op"] == "load" and o["name"] not in disk.good:
            disk.install(o["name"])
    disk.attach()
    generated = {}
    loaded = []  # [airfoil, snapshot it must keep]
    last = "start"
    for n, o in enumerate(plan["ops"]):
        what = f"operation {n} ({o['op']} {o.get('name', '')})"
        outcome, where = "done", None
        if o["op"] == "load":
            outcome, where = load(ctx, disk, o, loaded, generated, what)
        elif loaded and o["op"] == "scribble":
            e = loaded[o["which"] % len(loaded)]
            getattr(e[0], o["what"])[:] += 0.125
            e[1] = snap(e[0])
        elif loaded and o["op"] == "flap":
            e = loaded[o["which"] % len(loaded)]
            try:
                e[0].add_control_surface(deflection=o["deflection"], hinge_point=o["hinge"])
            except Exception:
                outcome = "refused"
        ctx.event("op", n, o["op"], o.get("name"), (o.get("fault") or {}).get("type"), outcome, where)
        ctx.state(last, o["op"], (o.get("fault") or {}).get("type"), where, outcome)
        last = o["op"]
        for k, (a, want) in enumerate(loaded):
            ctx.check(same(want, snap(a)), "airfoil-altered", f"{what}: an airfoil loaded earlier (number {k}, {a.name}) changed")


def load(ctx, disk, o, loaded, generated, what):
    ps = boot.ps
    name, fault = o["name"], o["fault"]
    good = disk.good[name]
    now = good
    layer = None
    if fault is not None and fault["type"] in DISK and good is not None:
        now = disk.corrupt(name, fault)
        ctx.fault(fault["type"])
        ctx.nontrivial = True
        if now == good:
            fault = None
    elif fault is not None and fault["type"] in LAYER:
        layer = fault
    written = {"plain": name, "upper": name.upper(), "padded": f"  {name} "}[o["style"]]
    fired = []
    probe = sched.LineProbe()
    if fault is not None and fault["type"] == "line":
        probe.at, probe.fault = fault["at"], core.make_fault(fault["kind"])
    a, error = None, None
    mk = lambda: ps.geometry.Airfoil(name=written, repanel=o["repanel"], n_points_per_side=o["n"])
    try:
        with file_layer(disk, layer, fired):
            a = probe.run(mk) if probe.at is not None else mk()
    except BaseException as e:
        error = e
    finally:
        disk.restore(name)
    where = fired[0] if fired else (probe.fired[0] if probe.fired else None)
    if where is not None:
        ctx.fault(fault["type"])
        ctx.nontrivial = True
    hit = where is not None and where != "short read"
    corrupted = fault is not None and fault["type"] in DISK and good is not None
    is_naca = re.fullmatch(r"naca\d{4}", name) is not None
    if is_naca:
        # generated, not read: no disk fault can matter
        if error is not None:
            # (cambered sections cannot be built without repanelling)
            ctx.check(hit or not o["repanel"], "load-refused", f"{what}: generating {name} failed with {type(error).__name__}: {error}")
            return "refused", where
        key = (name, o["repanel"], o["n"])
        ref = generated.setdefault(key, snap(a))
        ctx.check(same(ref, snap(a)), "wrong-coordinates", f"{what}: {name} differs from what was generated before")
        loaded.append([a, snap(a)])
        return "loaded", where
    want_good = listed(good)
    if isinstance(want_good, str):
        return "unclear", where
    want_now = listed(now) if corrupted else want_good
    options = []
    for w in (want_good, want_now):
        if isinstance(w, np.ndarray):
            t = twin(w, o)
            if t is not None:
                options.append(t)
    if error is not None:
        if not hit and not corrupted and options:
            ctx.check(False, "load-refused", f"{what}: loading the healthy file failed with {type(error).__name__}: {error}")
        if not isinstance(error, Exception):
            ctx.check(hit and not isinstance(error, SystemExit), "unexpected-exception", f"{what}: {type(error).__name__}: {error}")
        ctx.count("loads refused")
        return "refused", where
    ctx.count("loads completed")
    got = snap(a)
    if isinstance(want_now, str):
        return "unclear", where
    ctx.check(
        any(same(t, got) for t in options),
        "wrong-coordinates",
        lambda: f"{what}: loaded {None if got['coordinates'] is None else got['coordinates'].shape} coordinates that are not those in the file "
        f"({'none valid' if not isinstance(want_now, np.ndarray) else want_now.shape} on disk, fault {fault})",
    )
    loaded.append([a, got])
    ctx.event(got["coordinates"])
    return "loaded", where


def shrink(plan):
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            c = copy.deepcopy(plan)
            del c["ops"][i]
            yield c
    for i, o in enumerate(plan["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(plan)
            c["ops"][i]["fault"] = None
            yield c
        if o.get("style", "plain") != "plain":
            c = copy.deepcopy(plan)
            c["ops"][i]["style"] = "plain"
            yield c
