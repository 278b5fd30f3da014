"""Linear models in the leaves, fitted on frames and arrays that hold the
regressors among the columns."""
import copy

import numpy as np

import tasks
from core import Scenario, conform
from fits import random_opts


def layout(rng, P, frame):
    """columns of the data: (name, kind, values), regressors first in their order"""
    cols = [("c%d" % j, "cont", [float(v) for v in P.c[:, j]]) for j in range(P.m)]
    cols += [("b%d" % j, "bin", [int(v) for v in P.X[:, j]]) for j in range(P.F)]
    more = rng.random()
    if frame and more < .3:
        cols.append(("kind", "cat", [["old", "new"][int(v)] for v in rng.integers(0, 2, size=P.N)]))
    elif more < .6:
        cols.append(("other", "num", [float(v) for v in rng.integers(3, 9, size=P.N)]))
    return cols


def datum(P, cols, order, frame, ix, chosen, listed):
    """chosen: the columns to name as regressors, or None to have them found"""
    at = [cols[j] for j in order]
    d = {"y": P.yval(ix), "ykind": "float"}
    if frame:
        d["cols"] = [[n, [v[i] for i in ix]] for n, _, v in at]
    else:
        d.update(X=[[v[i] for _, _, v in at] for i in ix], F=len(at), dtype="float64")
    key = (lambda j: cols[j][0]) if frame else (lambda j: order.index(j))
    if chosen is not None:
        d["continuous_columns"] = [key(j) for j in chosen]
    if listed:
        d["categorical_columns"] = ["kind"]
    return d


def scenario(rng, key, task):
    P = tasks.TASKS[task](rng, n=int(rng.choice([16, 24, 36])), F=int(rng.integers(1, 3)), hold=0.3)
    for j in range(P.m):
        if set(P.c[:P.n, j]) <= {0.0, 1.0}:
            P.c[:, j] += 2
    P.derive()
    frame = bool(rng.random() < .6)
    cols = layout(rng, P, frame)
    kinds = [c[1] for c in cols]
    order = [int(v) for v in rng.permutation(len(cols))]
    use = list(range(P.m))
    if "num" in kinds or rng.random() < .5:
        chosen = use
    else:
        chosen, use = None, sorted(use, key=order.index)
    listed = "cat" in kinds and rng.random() < .5
    kw = P.kw(int(rng.choice([1, 2, 3])), None, int(rng.choice([1, 2, 6])), random_opts(rng, P))
    kw.update(n_thresholds=int(rng.integers(1, 3)) if P.m == 1 else 1, continuous_binarize_strategy=str(rng.choice(["quantile", "uniform", "tree"])))
    d, ml = kw["max_depth"], kw["min_leaf_node_size"]
    data = {"f": datum(P, cols, order, frame, range(P.n), chosen, listed)}
    steps = [{"op": "new", "e": "e", "cls": P.cls, "kw": kw}]
    if rng.random() < .4:      # a fit that was given other regressors before
        data["g"] = datum(P, cols, order, frame, range(P.n), [0] if rng.random() < .5 or "num" not in kinds else [kinds.index("num")], listed)
        steps.append({"op": "fit", "e": "e", "d": "g"})
    again = [int(v) for v in rng.permutation(order)] if frame else order
    data["t"] = datum(P, cols, again, frame, range(P.N), None, False)
    at = len(steps)
    steps += [{"op": "fit", "e": "e", "d": "f"}, {"op": "estbin", "e": "e", "d": "t"}, {"op": "predict", "e": "e", "d": "t"}, {"op": "eval", "e": "e", "d": "t"}]

    def events(res):
        ok = not isinstance(res, dict) and "exc" not in res[at] and "exc" not in res[at + 1]
        if not ok:
            return [P.problem_event(key, P.eff_ml(ml), d), P.fit_event(key + "/fit", d, None, {"exc": 1})]
        Q = copy.copy(P)
        Q.X = np.array(res[at + 1]["X"])
        Q.F = Q.X.shape[1]
        Q.c = P.c[:, use]
        Q.derive()
        r = res[at]
        g = [Q.problem_event(key, Q.eff_ml(ml), d), Q.fit_event(key + "/fit", d, None, r)]
        if g[1]["res"] == "ok":
            g += [Q.pred_event(key + "/pred", range(P.N), res[at + 2], r["tree"]), Q.eval_event(key + "/eval", range(P.N), res[at + 3], r["tree"])]
        return g
    return Scenario(key, {"id": key, "data": data, "steps": steps}, events,
                    lambda: {"task": task, "n": P.n, "kw": kw, "kinds": [kinds[j] for j in order], "regressors": chosen, "frame": frame, "refit": "g" in data})


def framed(ctx, count, clauses):
    rng = ctx.rng(91)
    names = ["simple-linear-regression", "piecewise-linear-regression"]
    return conform(ctx, [scenario(rng, "d%d" % i, names[i % 2]) for i in range(count)], "FitTrace", clauses)
