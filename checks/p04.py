"""Cost-sensitive trees minimise misclassification plus test costs."""
from fits import OPTIMAL, optimum_check


def check(ctx):
    optimum_check(ctx, ["cost-sensitive"], 1500, 7000, OPTIMAL)
