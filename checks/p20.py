"""Not-fitted errors, warnings, exceptions: sessions behave as Session says."""
import tasks
from sessions import each_error, sessions


def check(ctx):
    ctx.model("MCSession", workers=4)
    each_error(ctx, list(tasks.TASKS), {"crash", "lifecycle", "info"})
    sessions(ctx, list(tasks.TASKS), ctx.pick(500, 3000), 14, {"crash", "lifecycle", "info"})
