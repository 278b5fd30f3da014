"""Predictions follow the returned tree, in any order of calls."""
import tasks
from fits import family
from frames import framed
from sessions import after_changes, sessions

CLAUSES = {"pred", "curve", "crash"}


def check(ctx):
    names = list(tasks.TASKS)
    # every fitted tree on batches of training rows, repeated rows and rows that were not trained on
    family(ctx, names, ctx.pick(60, 300) * len(names), CLAUSES, pred=True, evals=True, subsets=True, salt=0, hold=0.35, nfits=3)
    # interleaved fits, predictions and scores on two estimators
    sessions(ctx, names, ctx.pick(500, 3000), 16, CLAUSES | {"evalscore", "evalqlen"})
    # parameters that change between a fit and the predictions
    after_changes(ctx, names, ctx.pick(10, 60) * len(names), CLAUSES | {"evalscore", "evalqlen", "lifecycle"})
    framed(ctx, ctx.pick(100, 1000), CLAUSES)
