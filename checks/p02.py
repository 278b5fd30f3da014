"""Cost-complex accuracy trees minimise error plus size penalty."""
from fits import OPTIMAL, optimum_check


def check(ctx):
    optimum_check(ctx, ["cost-complex-accuracy"], 1500, 7000, OPTIMAL)
