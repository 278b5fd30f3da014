"""Fitted trees obey every requested structural limit."""
import tasks
from fits import family

CLAUSES = {"depth", "nodes", "leafsize", "wellformed", "reported", "crash"}


def check(ctx):
    names = list(tasks.TASKS)
    total = [t for t in names if not tasks.TASKS[t].pareto]
    pareto = [t for t in names if tasks.TASKS[t].pareto]
    n = ctx.pick(100, 500)
    family(ctx, names, n * len(names), CLAUSES, mls=(1, 2, 3, 4, 5, 8), salt=0)
    # limits that bind: many leaf-size and node-count values on wider problems
    family(ctx, total, n // 4 * len(total), CLAUSES, mls=(2, 4, 6, 9), salt=1, Fs=[6, 7], ns=[20, 40], depths=[3, 4], nfits=4)
    family(ctx, pareto, n // 3 * len(pareto), CLAUSES, mls=(2, 4, 6), salt=2, Fs=[5, 6], ns=[20, 30], depths=[2, 3], nfits=4)
