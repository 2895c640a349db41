"""Line-level control of the code under test.

Every executed line of the package under test is a scheduling point: the simulator can
stop the run there with an exception (a crash point) or hand the processor to another
logical task (a preemption point). Real threads are used, but exactly one holds the
baton at any time and only the simulator's schedule moves it, so a run is a pure
function of its plan and the code.
"""

import dis
import sys
import threading
import types

from . import boot, core


def _in_pkg(frame):
    return frame.f_code.co_filename.startswith(boot.PKG)


class Lines(int):
    """A number of executed lines that also knows which ones: `sites` lists
    (file, line number, times executed, what is special), in file order: 1 if the line
    uses mutable module state, 2 if the line before it stored an attribute, or both."""

    sites = ()

    def pick(self, frac, occ, shared=False):
        """(site, occurrence): uniform over the distinct lines, not over executions.
        shared: True for the lines that use module state; "stores" for the lines that
        follow the storing of an attribute, each file with the same weight."""
        if shared == "stores":
            sites = [x for x in self.sites if x[3] & 2]
            files = sorted({x[0] for x in sites})
            if files:
                k = min(len(files) - 1, int(frac * len(files)))
                frac = frac * len(files) - k
                sites = [x for x in sites if x[0] == files[k]]
        else:
            sites = [x for x in self.sites if x[3] & 1] if shared else []
        sites = sites or self.sites
        if not sites:
            return None, 1
        f, n, count, _ = sites[min(len(sites) - 1, int(frac * len(sites)))]
        return (f, n), 1 + min(count - 1, int(occ * count))


_CONSTANT = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, str, int, float, bool, bytes, tuple, type(None), range)


def _state_lines(code, globs):
    """Line numbers of `code` that use a mutable module-level object or assign a global."""
    out = set()
    line = None
    for ins in dis.get_instructions(code):
        if ins.starts_line:
            line = ins.line_number if hasattr(ins, "line_number") else ins.starts_line
        if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
            out.add(line)
        elif ins.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
            v = globs.get(ins.argval, None)
            if not isinstance(v, _CONSTANT) and type(v).__module__.split(".")[0] not in ("logging", "numba"):
                out.add(line)
    return out


def _after_stores(code):
    """Line numbers of `code`, unless it initialises an object, that follow a line which
    stores an attribute or an item."""
    out = set()
    if code.co_name == "__init__":
        return out
    line, stored = None, False
    for ins in dis.get_instructions(code):
        n = getattr(ins, "line_number", None) or (ins.positions and ins.positions.lineno)
        if n and n != line:
            if stored:
                out.add(n)
            line, stored = n, False
        if ins.opname in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_ATTR"):
            stored = True
    return out


class LineProbe:
    """Counts executed lines of the package; raises `fault` at line number `at`, or at
    the `occ`-th execution of the line `site`."""

    def __init__(self, at=None, fault=None, by="line", watch=None, track=False):
        self.site = None
        self.occ = 1
        self.counts = {} if track else None
        self.at = at
        self.fault = fault
        self.by = by  # 'line' or 'call'
        self.lines = 0
        self.calls = 0
        self.fired = None
        self.watch = watch
        self.suspended = 0

    def _hit(self, frame):
        self.fired = (frame.f_code.co_name, frame.f_lineno)
        raise self.fault

    def trace(self, frame, event, arg):
        if not _in_pkg(frame):
            return None
        self.calls += 1
        if self.by == "call" and self.calls == self.at and not self.suspended:
            self._hit(frame)
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and not self.suspended:
            self.lines += 1
            if self.counts is not None:
                k = (frame.f_code, frame.f_lineno)
                n = self.counts.get(k)
                if n is None:
                    self.counts[k] = [1, frame.f_globals]
                else:
                    n[0] += 1
            elif self.site is not None and frame.f_lineno == self.site[1] and frame.f_code.co_filename == self.site[0]:
                self.occ -= 1
                if self.occ == 0:
                    self._hit(frame)
            if self.by == "line" and self.lines == self.at:
                self._hit(frame)
            if self.watch is not None:
                self.watch(frame)
        return self.local

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return fn()
        finally:
            sys.settrace(old)

    @property
    def armed(self):
        return self.at is not None or self.site is not None

    def measured(self):
        out = Lines(self.lines)
        merged = {}
        state = {}
        for (code, line), (n, globs) in (self.counts or {}).items():
            if code not in state:
                state[code] = _state_lines(code, globs), _after_stores(code)
            m = merged.setdefault((code.co_filename, line), [0, 0])
            m[0] += n
            m[1] |= (line in state[code][0]) + 2 * (line in state[code][1])
        out.sites = [(f, line, n, s) for (f, line), (n, s) in sorted(merged.items())]
        return out


class Task:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.done = False
        self.result = None
        self.error = None
        self.lines = 0
        self.kill_at = None
        self.kill_with = None
        self.kill_site = None  # (file, line), occurrence
        self.stops = {}  # (file, line) -> {occurrence: (pick, lines)}
        self.seen = {}
        self.event = threading.Event()


class Scheduler:
    """Cooperative scheduler over real threads; `decide(sched, task)` returns the number
    of lines the chosen task may run and which task that is."""

    def __init__(self, tasks, switches, rng=None, max_switches=4000):
        # switches: list of [lines, pick]; pick indexes the runnable tasks (mod count).
        # When the list runs out each remaining task runs to its end, in order.
        self.tasks = tasks
        self.switches = list(switches)
        self.pos = 0
        self.current = None
        self.budget = None
        self.main = threading.Event()
        self.trace_log = []
        self.interleave = []

    def _runnable(self):
        return [t for t in self.tasks if not t.done]

    def _next(self):
        run = self._runnable()
        if not run:
            return None, None
        if self.pos < len(self.switches):
            lines, pick = self.switches[self.pos]
            self.pos += 1
            return run[pick % len(run)], max(1, int(lines))
        return run[0], None

    def _give(self, task, budget):
        self.current = task
        self.budget = budget
        task.event.set()

    def _yield_to(self, task, pick, budget):
        """Hand over to one of the other tasks, for so many lines or to its end."""
        others = [t for t in self._runnable() if t is not task]
        if not others:
            return
        nxt = others[pick % len(others)]
        self.interleave.append(self.tasks.index(nxt))
        task.event.clear()
        self._give(nxt, budget)
        task.event.wait()

    def _yield_from(self, task):
        nxt, budget = self._next()
        if nxt is None:
            self.main.set()
            return
        self.interleave.append(self.tasks.index(nxt))
        if nxt is task:
            self.budget = budget
            return
        task.event.clear()
        self._give(nxt, budget)
        if not task.done:
            task.event.wait()

    def _local(self, task):
        def local(frame, event, arg):
            if event == "line":
                task.lines += 1
                if task.lines == task.kill_at:
                    raise task.kill_with
                if task.stops or task.kill_site:
                    k = (frame.f_code.co_filename, frame.f_lineno)
                    at = task.stops.get(k, ())
                    kill = task.kill_site is not None and task.kill_site[0] == k
                    if at or kill:
                        n = task.seen[k] = task.seen.get(k, 0) + 1
                        if kill and n == task.kill_site[1]:
                            raise task.kill_with
                        if n in at:
                            self.trace_log.append((task.name, frame.f_code.co_name, task.lines))
                            self._yield_to(task, *at[n])
                if self.budget is not None:
                    self.budget -= 1
                    if self.budget <= 0:
                        self.trace_log.append(
                            (task.name, frame.f_code.co_name, task.lines)
                        )
                        self._yield_from(task)
            return local

        return local

    def _body(self, task):
        task.event.wait()
        local = self._local(task)

        def tracer(frame, event, arg):
            return local if _in_pkg(frame) else None

        sys.settrace(tracer)
        try:
            task.result = task.fn()
        except BaseException as e:  # noqa: B902  reported to the oracle, not swallowed
            task.error = e
        finally:
            sys.settrace(None)
            task.done = True
            self._yield_from(task)

    def run(self):
        threads = [
            threading.Thread(target=self._body, args=(t,), daemon=True)
            for t in self.tasks
        ]
        for th in threads:
            th.start()
        first, budget = self._next()
        self.interleave.append(self.tasks.index(first))
        self._give(first, budget)
        if not self.main.wait(timeout=600):
            raise core.HarnessError("scheduler stuck")
        for th in threads:
            th.join(timeout=60)
