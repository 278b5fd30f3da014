"""Binary features of raw columns are the documented predicates."""
from binar import binarised


def check(ctx):
    binarised(ctx, ctx.pick(1200, 12000), ctx.pick(500, 4000), {"crash", "num", "cat", "bin", "encode", "columns", "rawfit", "accepted"})
