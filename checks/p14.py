"""A fit whose time limit expires gives no result or an admissible, truthful one."""
import tasks
from timed import expiries

CLAUSES = {"crash", "depth", "nodes", "wellformed", "leafsize", "reported", "unfair", "label", "claimed", "score", "qlen",
           "feasible", "optimal", "unproved"}


def check(ctx):
    names = list(tasks.TASKS)
    expiries(ctx, names, ctx.pick(25, 150) * len(names), ctx.pick(24, 60), CLAUSES)
    expiries(ctx, names, ctx.pick(6, 40) * len(names), ctx.pick(10, 30), CLAUSES, salt=1, tune=True, depths=[1, 2, 2], n=40)
