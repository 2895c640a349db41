"""Shared pieces of the properties: fault plans around one operation on real code."""

import os
import pickle
import signal
import sys
import tempfile

from . import core, sched, seams

SOLO_CPU_LIMIT = 60

LINE_FAULTS = ["line", "line", "call", "tail", "head", "site", "site", "site"]
FAULT_KINDS = ["error", "interrupt", "memory", "interrupt", "float"]


def gen_fault(rng, allow=("line", "solve", "stderr")):
    t = rng.choice(list(allow))
    if t == "line":
        how = rng.choice(LINE_FAULTS)
        f = {"type": how, "kind": rng.choice(FAULT_KINDS)}
        if how in ("line", "call"):
            f["frac"] = round(rng.random(), 6)
        elif how == "site":
            # uniform over the distinct lines the operation executes
            f["frac"] = round(rng.random(), 6)
            f["occ"] = round(rng.choice([0.0, rng.random(), 0.999]), 3)
            f["shared"] = rng.random() < 0.3
        else:
            # log-uniform distance from the end or the start of the run
            f["dist"] = int(2 ** rng.uniform(0, 9))
        return f
    if t == "solve":
        return {"type": "solve", "frac": round(rng.random(), 4), "kind": rng.choice(["linalg", "linalg", "memory", "float"])}
    if t == "stderr":
        return {"type": "stderr", "at": rng.choice([1, 1, 2, 3, 5, 8]), "kind": rng.choice(["pipe", "os"]), "sticky": rng.random() < 0.4}
    raise core.HarnessError(t)


class Outcome:
    value = None
    error = None
    fault = None  # the injected exception, if it fired
    fired = None


def measure(fn, watch=None):
    """Run fn cleanly under the tracer: (value, lines, calls, solve calls)."""
    probe = sched.LineProbe(track=True, watch=watch)
    sol = seams.solve_faults()
    with seams.streams(), seams.SimClock("tick").installed(), sol.installed():
        v = probe.run(fn)
    return v, probe.measured(), probe.calls, sol.n


def arm(probe, fault, lines, calls):
    """Set the probe up for a line-type fault; returns the exception it will raise."""
    t = fault["type"]
    if t not in ("line", "head", "tail", "call", "site"):
        return None
    probe.fault = core.make_fault(fault["kind"])
    if t == "line":
        probe.at = 1 + int(fault["frac"] * max(0, lines - 1))
    elif t == "call":
        probe.by = "call"
        probe.at = 1 + int(fault["frac"] * max(0, calls - 1))
    elif t == "site":
        probe.site, probe.occ = getattr(lines, "pick", lambda *a: (None, 1))(fault["frac"], fault["occ"], fault["shared"])
    elif t == "head":
        probe.at = min(lines, fault["dist"])
    else:
        probe.at = max(1, lines + 1 - fault["dist"])
    return probe.fault


def faulty(fn, fault, size, ctx, clock="tick", clock_seed=0):
    """Run fn once with the given fault; size = (lines, calls, solves) of a clean run."""
    lines, calls, solves = size
    out = Outcome()
    err = seams.SimStream()
    sol = seams.solve_faults()
    probe = sched.LineProbe()
    inj = None
    if fault is not None:
        t = fault["type"]
        inj = arm(probe, fault, lines, calls)
        if inj is not None:
            pass
        elif t == "solve":
            sol.fail_at = {1 + int(fault["frac"] * max(0, solves - 1))}
            sol.kind = fault["kind"]
        elif t == "stderr":
            err = seams.SimStream(fail_at={fault["at"]}, kind=fault["kind"], sticky=fault["sticky"])
    clk = seams.SimClock(clock, clock_seed)
    with seams.streams(err=err), clk.installed(), sol.installed():
        try:
            out.value = probe.run(fn) if probe.armed else fn()
        except BaseException as e:
            out.error = e
    if probe.fired is not None:
        out.fault, out.fired = inj, probe.fired[0]
    elif sol.raised:
        out.fault, out.fired = sol.raised[0], "numpy.linalg.solve"
    elif err.raised:
        out.fault, out.fired = err.raised[0], "stderr"
    if out.fault is not None:
        ctx.fault(f"{fault['type']}/{fault['kind']}")
    ctx.sim_seconds += 0.0
    return out


def describe_fault(f):
    return "no fault" if f is None else ",".join(f"{k}={v}" for k, v in sorted(f.items()))


def require_fault_reached(ctx, out, what):
    """A failed operation must fail with the injected fault in its chain."""
    if out.error is None:
        return
    if out.fault is None:
        raise out.error
    ctx.check(
        core.in_chain(out.error, out.fault),
        "fault-replaced",
        f"{what}: the injected {type(out.fault).__name__} at {out.fired} became an unrelated "
        f"{type(out.error).__name__}: {out.error}",
    )


def _outcome(fn):
    """("value", v), or what a failure of fn means, in picklable form."""
    import traceback

    from . import runner

    try:
        return "value", fn()
    except core.PropertyViolated as v:
        return "violated", (v.tag, v.message, v.key)
    except BaseException as e:
        where = isinstance(e, Exception) and not isinstance(e, core.HarnessError) and runner.repo_frame(e)
        if where:
            return "violated", ("unexpected-exception", f"{type(e).__name__}: {e} at {where}", "unexpected-exception")
        return "harness", "".join(traceback.format_exception(e))


def _forked(fn, path):
    """Compute fn() in a forked copy of this process and leave its outcome at `path`."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, SOLO_CPU_LIMIT)
            v = _outcome(fn)
            with open(path, "wb") as f:
                pickle.dump(v, f)
        finally:
            os._exit(0)
    status = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGPROF:
        msg = f"a solve alone in its process did not finish within {SOLO_CPU_LIMIT} s of CPU time"
        with open(path, "wb") as f:
            pickle.dump(("violated", ("no-progress", msg, "no-progress")), f)


def _collect(path):
    with open(path, "rb") as f:
        data = f.read()
    os.unlink(path)
    if not data:
        raise core.HarnessError("the solo run ended without a result")
    what, v = pickle.loads(data)
    if what == "violated":
        raise core.PropertyViolated(*v)
    if what == "harness":
        raise core.HarnessError("the solo run failed:\n" + v)
    return v


def _tempfile():
    fd, path = tempfile.mkstemp(dir=os.environ["PTERA_SCRATCH"])
    os.close(fd)
    return path


def solo(fn):
    """fn()'s (picklable) value computed in a forked copy of this process."""
    path = _tempfile()
    _forked(fn, path)
    return _collect(path)


class Pristine:
    """A copy of this process as it was when this object was made. Every call runs in a
    fresh fork of that copy, so nothing the process did since, and no other call, can
    influence the answer."""

    def __init__(self):
        mine, theirs = os.pipe(), os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(mine[1])
                os.close(theirs[0])
                self._serve(os.fdopen(mine[0], "rb"), os.fdopen(theirs[1], "wb"))
            finally:
                os._exit(0)
        os.close(mine[0])
        os.close(theirs[1])
        self.to, self.back = os.fdopen(mine[1], "wb"), os.fdopen(theirs[0], "rb")

    @staticmethod
    def _serve(inp, out):
        signal.setitimer(signal.ITIMER_PROF, 0)
        while True:
            try:
                fn, args, path = pickle.load(inp)
            except EOFError:
                return
            _forked(lambda: fn(*args), path)
            out.write(b".")
            out.flush()

    def call(self, fn, *args):
        path = _tempfile()
        pickle.dump((fn, args, path), self.to)
        self.to.flush()
        if self.back.read(1) != b".":
            raise core.HarnessError("the pristine process is gone")
        return _collect(path)

    def close(self):
        self.to.close()
        self.back.close()
        os.waitpid(self.pid, 0)
