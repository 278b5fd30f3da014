"""Hyper-tuning chooses a best validated setting and fits it to all data."""
import tasks
from tuning import tuned

CLAUSES = {"crash", "setting", "notbest", "folds", "foldscore", "imperfect", "peeked", "feasible", "optimal", "unproved", "depth", "nodes", "leafsize",
           "wellformed", "score"}


def check(ctx):
    names = list(tasks.TASKS)
    tuned(ctx, names, ctx.pick(20, 120) * len(names), CLAUSES, n=[30, 40, 60])
    tuned(ctx, names, ctx.pick(4, 20) * len(names), CLAUSES, salt=3, n=[3, 5, 8, 12])
    tuned(ctx, ["accuracy"], ctx.pick(40, 300), CLAUSES, salt=1, n=[25, 35, 50, 75])
    tuned(ctx, ["accuracy", "cost-complex-accuracy", "f1-score", "regression", "cost-complex-regression"], ctx.pick(40, 200), CLAUSES, salt=2, plant=True,
          F=[3, 4])
    # every fold is one instance: its score follows from the others
    tuned(ctx, ["accuracy", "instance-cost-sensitive"], ctx.pick(80, 800), CLAUSES, salt=4, n=[3, 4, 5], F=[2, 3], K=[2], depths=[1, 2])
