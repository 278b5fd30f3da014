"""Survival trees minimise the proportional-hazards loss."""
from fits import OPTIMAL, optimum_check


def check(ctx):
    optimum_check(ctx, ["survival-analysis"], 1200, 6000, OPTIMAL | {"label"})
