"""Fair trees respect the discrimination limit and are the best such trees."""
from fits import OPTIMAL, optimum_check


def check(ctx):
    optimum_check(ctx, ["group-fairness", "equality-of-opportunity"], 1500, 7000, OPTIMAL | {"wellformed"})
