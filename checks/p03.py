"""Regression trees minimise squared error (plus size penalty); leaves predict means."""
from fits import OPTIMAL, optimum_check


def check(ctx):
    optimum_check(ctx, ["regression", "cost-complex-regression"], 1500, 7000, OPTIMAL | {"label"})
