"""Linear-leaf regression trees are optimal for the elastic-net leaf models."""
from fits import OPTIMAL, optimum_check, stored
from frames import framed


def check(ctx):
    optimum_check(ctx, ["simple-linear-regression", "piecewise-linear-regression"], 1000, 5000, OPTIMAL | {"label"})
    stored(ctx, "linear.jsonl", OPTIMAL, salt=9)
    framed(ctx, ctx.pick(240, 2400), OPTIMAL | {"label"})
