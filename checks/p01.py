"""Accuracy trees make the fewest possible training mistakes."""
from fits import OPTIMAL, optimum_check


def check(ctx):
    optimum_check(ctx, ["accuracy"], 1500, 7000, OPTIMAL)
