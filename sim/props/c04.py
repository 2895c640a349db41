"""C04: each time step's circulation and loads solve the flow posed by the history."""

from .. import history as Hs
from .. import refmodel as R
from .. import spec as S

ID = "C04"
RUNS = {"quick": 900, "thorough": 30000}
RULE = Hs.RULE.format("at least two steps, so that wake, motion and circulation change act on the solution")
STATE_MEASURE = Hs.STATE
REAL, STUB = Hs.REAL, Hs.STUB
ASSUMPTIONS = ["Geometry and wake of each step are taken as recorded (C12 and C03 decide them)."]


def gen(rng, i, tier):
    big = rng.random() < (0.12 if tier == "quick" else 0.3)
    model = S.gen_model(rng, steps=(5, 12) if big else (2, 6), max_panels=40 if big else 22, fine=0.03, op_move=0.4, static_prob=0.2, only_final=0.25)
    model = Hs.long_model(rng, 0.03, op_move=0.4, static_prob=0.2, only_final=0.25) or model
    model["streamlines"] = rng.random() < 0.5
    return Hs.gen(rng, model)


def run(plan, ctx):
    def after(b, solver, hist, prescribed, streamlines):
        ctx.count("flows checked")
        R.check_step_flow(ctx, solver, hist)
        first = S.first_averaging_steps(plan["model"]) if plan["model"]["only_final"] else [0]
        R.check_step_loads(ctx, solver, hist, first)
        R.check_streamlines(ctx, solver, hist, streamlines)

    ctx.nontrivial = plan["model"]["steps"] >= 2
    Hs.run(plan, ctx, after)


shrink = Hs.shrink
