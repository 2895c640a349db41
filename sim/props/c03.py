"""C03: the wake is an exact memory of what each wing shed, and where it went."""

from .. import history as Hs
from .. import refmodel as R
from .. import spec as S

ID = "C03"
RUNS = {"quick": 900, "thorough": 30000}
RULE = Hs.RULE.format("at least three steps, so that some ring is convected and some row is followed by another")
STATE_MEASURE = Hs.STATE
REAL, STUB = Hs.REAL, Hs.STUB
ASSUMPTIONS = ["Bound geometry of each step is taken as recorded (C12 decides it)."]


def gen(rng, i, tier):
    big = rng.random() < (0.12 if tier == "quick" else 0.3)
    model = S.gen_model(rng, steps=(6, 16) if big else (2, 8), max_panels=16 if big else 22, fine=0.03, op_move=0.4, static_prob=0.15, only_final=0.2)
    model = Hs.long_model(rng, 0.04, op_move=0.4, static_prob=0.15, only_final=0.2) or model
    model["prescribed"] = rng.random() < 0.45
    model["streamlines"] = rng.random() < 0.1
    return Hs.gen(rng, model)


def run(plan, ctx):
    def after(b, solver, hist, prescribed, streamlines):
        ctx.count("wakes checked")
        R.check_wake(ctx, solver, hist, prescribed)

    ctx.nontrivial = plan["model"]["steps"] >= 3
    Hs.run(plan, ctx, after)


shrink = Hs.shrink
