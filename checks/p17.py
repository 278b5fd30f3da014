"""A fit does not depend on what happened before, and inputs stay unchanged."""
import tasks
from sessions import sessions

CLAUSES = {"feasible", "optimal", "unproved", "repro", "mutated", "crash"}


def check(ctx):
    ctx.model("MCSession", workers=4)
    sessions(ctx, list(tasks.TASKS), ctx.pick(1000, 5000), 12, CLAUSES, salt=0)
    sessions(ctx, list(tasks.TASKS), ctx.pick(200, 1500), 30, CLAUSES, salt=1)
