"""Search options and data order never change the value of the result."""
import tasks
from fits import OPTIMAL
from options import large, small, wide


def check(ctx):
    names = list(tasks.TASKS)
    small(ctx, names, ctx.pick(6, 40) * len(names), ctx.pick(64, 512), OPTIMAL)
    large(ctx, names, ctx.pick(12, 80) * len(names), {"differs", "crash"})
    wide(ctx, names, ctx.pick(4, 40) * len(names), {"differs", "crash"})
