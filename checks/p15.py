"""A supplied upper bound only filters results."""
from bounds import bounded

CLAUSES = {"feasible", "bound", "optimal", "unproved", "crash"}


def check(ctx):
    bounded(ctx, ctx.pick(1500, 9000), CLAUSES)
    bounded(ctx, ctx.pick(150, 900), CLAUSES, salt=1, F=6, n=40)
