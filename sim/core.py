"""Core of the simulator: run context, violations, injected faults, digests."""

import hashlib
import json
import random

import numpy as np


class PropertyViolated(Exception):
    """Raised by a property's oracle. Never caught by harness code."""

    def __init__(self, tag, message, key=None):
        super().__init__(f"{tag}: {message}")
        self.tag = tag
        self.message = message
        self.key = key or tag


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


# Injected faults. Each instance is unique, so an oracle can ask whether the very fault
# that was injected is the one that reached the caller.
class SimError(Exception):
    pass


class SimInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


class SimOSError(OSError):
    pass


class SimLinAlgError(np.linalg.LinAlgError):
    pass


class SimFloatingPointError(FloatingPointError):
    pass


FAULTS = {
    "error": SimError,
    "interrupt": SimInterrupt,
    "memory": SimMemoryError,
    "os": SimOSError,
    "linalg": SimLinAlgError,
    "float": SimFloatingPointError,
}


def make_fault(kind, note=""):
    if kind == "os":
        return SimOSError(28, f"simulated: No space left on device {note}")
    if kind == "pipe":
        e = SimOSError(32, f"simulated: Broken pipe {note}")
        return e
    return FAULTS[kind](f"simulated {kind} fault {note}")


def in_chain(exc, fault, limit=20):
    """True if `fault` is `exc` or is in its cause/context chain."""
    seen = 0
    todo = [exc]
    while todo and seen < limit:
        e = todo.pop()
        seen += 1
        if e is fault:
            return True
        if e is None:
            continue
        todo.append(e.__cause__)
        todo.append(e.__context__)
    return False


def rng_for(seed, prop, index, salt=""):
    """The only source of randomness: a PRNG named by (seed, property, index)."""
    return random.Random(f"ptera/{seed}/{prop}/{index}/{salt}")


class Ctx:
    """One simulated run: its counters, its event log digest and its verdict."""

    def __init__(self, known=()):
        self.counters = {}
        self.states = set()
        self.hash = hashlib.sha256()
        self.num_events = 0
        self.log = []
        self.sim_seconds = 0.0
        self.nontrivial = False
        self.known = {k["key"]: k for k in known}
        self.known_seen = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fault(self, name, n=1):
        self.count("fault:" + name, n)

    def probe(self, name, n=1):
        self.count("probe:" + name, n)

    def state(self, *key):
        self.states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])

    def event(self, *parts):
        """Append to the event log; the log's digest identifies the execution."""
        self.num_events += 1
        for p in parts:
            if isinstance(p, np.ndarray):
                self.hash.update(str(p.shape).encode())
                self.hash.update(np.ascontiguousarray(p).tobytes())
            else:
                self.hash.update(repr(p).encode())
            self.hash.update(b"|")
        if len(self.log) < 400:
            self.log.append(
                " ".join(
                    "<array%s>" % (p.shape,) if isinstance(p, np.ndarray) else str(p)
                    for p in parts
                )
            )

    def digest(self):
        return self.hash.hexdigest()

    def violate(self, tag, message, key=None):
        key = key or tag
        if key in self.known:
            self.known_seen[key] = message
            return
        raise PropertyViolated(tag, message, key)

    def check(self, ok, tag, message, key=None):
        if not ok:
            self.violate(tag, message() if callable(message) else message, key)


def jdump(obj, path):
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=_default)
        f.write("\n")


def _default(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)
