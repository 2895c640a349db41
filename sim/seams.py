"""The seams behind which every source of nondeterminism sits."""

import contextlib
import io
import logging
import os
import sys
import time as _time
import weakref

import numpy as np

from . import core

REAL_PERF = _time.perf_counter
REAL_TIME = _time.time


class SimStream(io.TextIOBase):
    """A text stream owned by the simulator. Fails at chosen writes."""

    def __init__(self, fail_at=(), kind="pipe", sticky=False):
        self.n = 0
        self.fail_at = set(fail_at)
        self.kind = kind
        self.sticky = sticky
        self.raised = []
        self.chunks = []
        self.encoding_ = "utf-8"

    encoding = "utf-8"

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("simulated stream has no descriptor")

    def write(self, s):
        self.n += 1
        if self.n in self.fail_at or (self.sticky and self.raised):
            e = core.make_fault(self.kind, f"(write {self.n})")
            self.raised.append(e)
            raise e
        self.chunks.append(s)
        return len(s)

    def flush(self):
        return None

    def text(self):
        return "".join(self.chunks)


@contextlib.contextmanager
def streams(err=None, out=None):
    """Route stderr, stdout and every root log handler to simulated streams."""
    err = err or SimStream()
    out = out or SimStream()
    old = sys.stderr, sys.stdout
    sys.stderr, sys.stdout = err, out
    handlers = [
        (h, h.stream)
        for h in logging.getLogger().handlers
        if isinstance(h, logging.StreamHandler)
    ]
    for h, _ in handlers:
        h.stream = err
    try:
        yield err, out
    finally:
        sys.stderr, sys.stdout = old
        for h, s in handlers:
            h.stream = s


class SimClock:
    """The only clock the code under test reads while installed.

    mode: 'tick' (steady), 'frozen', 'jumpy' (stalls and large forward jumps),
    'backwards' (runs backwards now and then).
    """

    def __init__(self, mode="tick", seed=0, start=1.7e9):
        import random

        self.mode = mode
        self.rng = random.Random(f"clock/{seed}")
        self.now = start
        self.start = start
        self.calls = 0
        self.slept = 0.0
        self.jumps = 0
        self.backs = 0
        self.span = 0.0

    def read(self):
        self.calls += 1
        step = 1e-3
        if self.mode == "frozen":
            step = 0.0
        elif self.mode == "jumpy":
            r = self.rng.random()
            if r < 0.1:
                step = self.rng.choice([1.0, 3600.0, 86400.0 * 365])
                self.jumps += 1
        elif self.mode == "backwards":
            r = self.rng.random()
            if r < 0.3:
                step = -self.rng.choice([1e-3, 1.0, 3600.0, 86400.0])
                self.backs += 1
        self.now += step
        self.span += abs(step)
        return self.now

    def read_ns(self):
        return int(self.read() * 1e9)

    def sleep(self, s):
        self.slept += s
        self.now += s
        self.span += abs(s)

    @contextlib.contextmanager
    def installed(self):
        import tqdm.std

        new = {(_time, n): self.read for n in ("time", "monotonic", "perf_counter", "process_time")}
        new.update({(_time, n): self.read_ns for n in ("time_ns", "monotonic_ns", "perf_counter_ns")})
        new[_time, "sleep"] = self.sleep
        new[tqdm.std, "time"] = self.read
        with replaced(new):
            yield self


@contextlib.contextmanager
def replaced(new):
    """Replace library functions: {(owner, name): replacement}, and every name by which a
    module of the package has imported one of them."""
    from . import boot

    undo = []
    table = {}
    for (owner, name), f in new.items():
        real = getattr(owner, name)
        undo.append((owner, name, real))
        table[id(real)] = (real, f)
    for mod in list(sys.modules.values()):
        f = getattr(mod, "__file__", None)
        if f and os.path.realpath(f).startswith(boot.PKG):
            for k, v in list(vars(mod).items()):
                if id(v) in table and table[id(v)][0] is v:
                    undo.append((mod, k, v))
    for owner, name, real in undo:
        setattr(owner, name, table[id(real)][1])
    try:
        yield
    finally:
        for owner, name, real in undo:
            setattr(owner, name, real)


class CallFaults:
    """Wraps a library function the code calls; fails chosen calls.

    Every name in every listed namespace bound to the real function is replaced, so the
    caller's import style does not matter.
    """

    def __init__(self, owner, name, fail_at=(), kind="linalg", only_if=None):
        self.owner = owner
        self.name = name
        self.real = getattr(owner, name)
        self.fail_at = set(fail_at)
        self.kind = kind
        self.n = 0
        self.raised = []
        self.hook = None

    def __call__(self, *a, **k):
        self.n += 1
        if self.hook is not None:
            self.hook(self.n, a, k)
        if self.n in self.fail_at:
            e = core.make_fault(self.kind, f"({self.name} call {self.n})")
            self.raised.append(e)
            raise e
        return self.real(*a, **k)

    @contextlib.contextmanager
    def installed(self):
        with replaced({(self.owner, self.name): self}):
            yield self


def solve_faults(fail_at=(), kind="linalg"):
    return CallFaults(np.linalg, "solve", fail_at=fail_at, kind=kind)


class SimIds:
    """What `id` says inside the package: a simulated address space in which a dead
    object's address is given to the next object that asks, last freed first. (CPython
    makes no other promise, and which address it reuses is not under control otherwise.)
    """

    def __init__(self):
        self.live = {}
        self.free = []
        self.next = 0x7F0000001000
        self.reused = 0
        self.asked = 0

    def __call__(self, obj):
        real = id(obj)
        self.asked += 1
        if real in self.live:
            return self.live[real]
        try:
            weakref.finalize(obj, self._dead, real)
        except TypeError:
            return real
        if self.free:
            addr = self.free.pop()
            self.reused += 1
        else:
            addr = self.next
            self.next += 64
        self.live[real] = addr
        return addr

    def _dead(self, real):
        self.free.append(self.live.pop(real))

    @contextlib.contextmanager
    def installed(self):
        from . import boot

        mods = []
        for mod in list(sys.modules.values()):
            f = getattr(mod, "__file__", None)
            if f and os.path.realpath(f).startswith(boot.PKG) and "id" not in vars(mod):
                mod.id = self
                mods.append(mod)
        try:
            yield self
        finally:
            for mod in mods:
                vars(mod).pop("id", None)
