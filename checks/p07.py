"""F1 trees reach the highest attainable training F1 score."""
from fits import OPTIMAL, optimum_check


def check(ctx):
    optimum_check(ctx, ["f1-score"], 1500, 7000, OPTIMAL)
