"""Imports the code under test from the repository's working tree and warms its JIT."""

import logging
import os
import sys
import warnings

REPO = os.path.realpath(os.environ.get("PTERA_REPO", "/repo"))
PKG = os.path.join(REPO, "pterasoftware") + os.sep

ps = None


def load(warm=True):
    """Import pterasoftware from REPO and compile its numba kernels once."""
    global ps
    if ps is not None:
        return ps
    sys.path.insert(0, REPO)
    import matplotlib

    matplotlib.use("Agg", force=True)
    import pterasoftware

    got = os.path.realpath(os.path.dirname(pterasoftware.__file__)) + os.sep
    if got != PKG:
        raise RuntimeError(f"imported {got}, wanted {PKG}")
    import pterasoftware.airfoils  # noqa: F401  imported lazily by Airfoil otherwise
    import tqdm

    tqdm.tqdm.monitor_interval = 0
    # tqdm's default lock is a semaphore shared with every forked process, and tqdm does
    # not release it when a write to the stream fails.
    import threading

    tqdm.tqdm.set_lock(threading.RLock())
    ps = pterasoftware
    if warm:
        _warm()
    return ps


def _warm():
    # Compiling in the parent means no forked run compiles anything. Whatever a broken
    # tree does here is not a verdict: the runs themselves decide.
    devnull = open(os.devnull, "w")
    old = sys.stderr, sys.stdout
    sys.stderr = sys.stdout = devnull
    try:
        from . import spec as S
        import random

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for free in (False, True):
                try:
                    m = S.gen_model(random.Random(1), kind="unsteady", steps=(3, 3))
                    m["prescribed"] = not free
                    b = S.build(m)
                    s = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(
                        b.problem
                    )
                    s.run(prescribed_wake=not free, logging_level="Critical")
                except Exception:
                    pass
            for mod, cls in (
                (ps.steady_horseshoe_vortex_lattice_method, "SteadyHorseshoeVortexLatticeMethodSolver"),
                (ps.steady_ring_vortex_lattice_method, "SteadyRingVortexLatticeMethodSolver"),
            ):
                try:
                    m = S.gen_model(random.Random(2), kind="steady")
                    b = S.build(m)
                    getattr(mod, cls)(b.steady_problem).run(logging_level="Critical")
                except Exception:
                    pass
    finally:
        sys.stderr, sys.stdout = old
        devnull.close()
    # The root logger got a stream handler when the package was imported; the runs give
    # it a simulated stream.
    for h in logging.getLogger().handlers:
        h.setLevel(logging.NOTSET)
