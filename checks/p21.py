"""Printed trees, exported graphs and class probabilities describe the tree."""
from exports import exported


def check(ctx):
    exported(ctx, ctx.pick(1300, 9100), ctx.pick(200, 1500), {"crash", "print", "text", "stats", "dot", "proba"})
