"""Instance-cost and policy trees choose minimum total cost labels."""
from fits import OPTIMAL, optimum_check


def check(ctx):
    optimum_check(ctx, ["instance-cost-sensitive", "prescriptive-policy"], 1500, 7000, OPTIMAL)
