"""Answers to subproblem queries and lower bounds, in any order, on one solver."""
from subs import queries

BROKEN = ["twice", "skip", "smaller", "share", "leafsize", "free", "expire"]


def check(ctx):
    # the inferences of the search are sound in any order ...
    for c in ctx.pick(["q1"], ["q1", "q2", "q3"]):
        ctx.model("MCSearch", "MCSearch_" + c, workers=8, heap="3g")
    for c in ["acc", "cca", "cs"]:
        ctx.simulate("MCSearch", "MCSearch_" + c, ctx.pick(100, 5000), 60, workers=8)
    # ... and none of their side conditions can be dropped
    for b in ctx.pick(BROKEN[ctx.seed % 7:][:1] + BROKEN[(ctx.seed + 3) % 7:][:1], BROKEN):
        ctx.refute("MCSearch", "MCSearch_not_" + b, workers=2)
    # the implementation's answers are those of the model
    queries(ctx, ctx.pick(4000, 40000), {"crash", "answer", "low", "unattained", "lowerbound", "rows"})
