"""C05: reported final loads are the reduction of the last cycle's recorded loads."""

import copy

from .. import history as Hs
from .. import observe as O
from .. import refmodel as R
from .. import seams
from .. import spec as S

ID = "C05"
RUNS = {"quick": 700, "thorough": 25000}
RULE = Hs.RULE.format("the averaging window is neither empty nor the single last step, or a twin with other options was compared")
STATE_MEASURE = Hs.STATE
REAL, STUB = Hs.REAL, Hs.STUB
ASSUMPTIONS = ["The averaging window is the documented one: the last floor(steps - period / step size) steps onwards, never negative."]


def gen(rng, i, tier):
    model = S.gen_model(rng, steps=(2, 14), max_panels=10, op_move=0.4, static_prob=0.2, only_final=0.4)
    model = Hs.long_model(rng, 0.03, op_move=0.4, static_prob=0.2, only_final=0.4) or model
    model["streamlines"] = rng.random() < 0.3
    p = Hs.gen(rng, model)
    p["twin"] = {
        "only_final": rng.random() < 0.5,
        "streamlines": rng.random() < 0.5,
        "log": rng.choice(["Debug", "Info", "Warning", "Error", "Critical"]),
    }
    return p


def run(plan, ctx):
    model = plan["model"]
    static = S.is_static(model)
    first = S.first_averaging_steps(model)

    def after(b, solver, hist, prescribed, streamlines):
        ctx.count("reductions checked")
        ctx.check(len(b.problem.steady_problems) == model["steps"], "step-count", f"{len(b.problem.steady_problems)} steps, asked for {model['steps']}")
        R.check_finals(ctx, b.problem, static, first)

    ctx.nontrivial = True
    b, solver, hist = Hs.run(plan, ctx, after)
    t = plan["twin"]
    m2 = copy.deepcopy(model)
    m2["only_final"] = t["only_final"]
    b2 = S.build(m2)
    s2 = S.unsteady_solver(b2)
    with seams.streams():
        s2.run(prescribed_wake=model["prescribed"], calculate_streamlines=t["streamlines"], logging_level=t["log"])
    d = O.diff(O.finals(b.problem), O.finals(b2.problem))
    ctx.check(not d, "option-dependence", lambda: f"final loads depend on options {t}: {d}")
    if m2["only_final"]:
        ctx.probe("only-final twin")
    if first[0] == 0:
        ctx.probe("window is the whole run")


def shrink(plan):
    yield from Hs.shrink(plan)
