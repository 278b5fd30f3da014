"""The command-line program uses the data of its files and reports the truth."""
from cli import files


def check(ctx):
    files(ctx, ctx.pick(1300, 7800), ctx.pick(300, 2400), ctx.pick(140, 1050),
          {"crash", "optimal", "feasible", "unproved", "score", "evalscore", "evalqlen", "wellformed", "depth", "nodes", "leafsize", "reported", "label", "part",
           "setting", "notbest", "folds", "foldscore", "peeked"})
