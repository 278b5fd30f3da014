"""Reported scores and question lengths are the returned tree's true ones."""
import tasks
from fits import family
from frames import framed

CLAUSES = {"score", "qlen", "evalscore", "evalqlen", "crash"}


def check(ctx):
    names = list(tasks.TASKS)
    n = ctx.pick(90, 450)
    # evaluation data: the training rows again, samples of them, and rows that were not trained on
    family(ctx, names, n * len(names), CLAUSES, evals=True, subsets=True, salt=0, hold=0.35)
    family(ctx, names, n // 3 * len(names), CLAUSES, evals=True, salt=1, mls=(1, 2))
    framed(ctx, ctx.pick(100, 1000), CLAUSES)
