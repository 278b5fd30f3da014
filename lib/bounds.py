"""Fits with a supplied upper bound placed around the optimum."""
import run
import tasks
from core import Scenario, conform
from fits import random_limits, random_opts

NAMES = ["accuracy", "cost-complex-accuracy", "regression", "cost-complex-regression", "cost-sensitive", "instance-cost-sensitive",
         "prescriptive-policy", "survival-analysis", "simple-linear-regression", "piecewise-linear-regression"]

FAR = 2 * 10 ** 9       # above every value


def value(P, t):
    """value of the tree in the units of the specification, roughly"""
    if isinstance(P, tasks.Table):
        def leaves(t):
            return t[0] if len(t) == 1 else leaves(t[1]) + leaves(t[2])

        def nodes(t):
            return 0 if len(t) == 1 else 1 + nodes(t[1]) + nodes(t[2])
        return leaves(P.cost_tree(t)) + P.extra_free().get("bc", 0) * nodes(t)
    p = P.record(1)

    def rec(t, rows, T):
        n, s = sum(r["n"] for r in rows), [sum(r["s"][j] for r in rows) for j in range(p["w"])]
        if len(t) == 1:
            if P.task == "accuracy":
                return n - s[t[0]]
            if P.task == "cost-complex-accuracy":
                return p["q"] * (n - s[t[0]])
            if P.task == "cost-sensitive":
                return sum(p["m"][k][t[0]] * s[k] for k in range(p["w"]))
            if P.task in ("instance-cost-sensitive", "prescriptive-policy"):
                return s[t[0]]
            return p["K"] * s[1] - p["K"] * s[0] ** 2 / max(1, n)
        f = t[0]
        b = p.get("bc", 0)
        if P.task == "cost-sensitive":
            fc = p["fc"]
            c = 0 if any(fc[g]["base"] == fc[f]["base"] for g in T) else fc[f]["disc"] if any(fc[g]["group"] == fc[f]["group"] for g in T) else fc[f]["cost"]
            b = n * c
        return b + rec(t[1], [r for r in rows if not r["x"][f]], T | {f}) + rec(t[2], [r for r in rows if r["x"][f]], T | {f})
    return rec(t, p["rows"], frozenset())


def real(P, v):
    """the bound given to the estimator for the value v of the specification"""
    if v == FAR:
        return 1e12
    if P.task == "accuracy":
        return v
    if P.task == "cost-complex-accuracy":
        return v / P.den
    if P.task in ("cost-sensitive", "instance-cost-sensitive"):
        return v / P.div
    if P.task == "prescriptive-policy":
        return (v - P.n * P.offset()) / 4
    if P.task in ("regression", "cost-complex-regression"):
        return v / P.Kfx / P.div ** 2
    return v / P.Kfx


def around(rng, P, opt):
    """bounds below, at and above the optimum, in the units of the specification"""
    if P.task in ("accuracy", "cost-sensitive", "instance-cost-sensitive", "prescriptive-policy"):
        e = 1 if P.task != "prescriptive-policy" else 1 + opt // 3000
        out = [opt - e, opt + e - 1, opt + e, opt + e * int(rng.integers(2, 9)), opt - e * int(rng.integers(2, 5)), opt * 2]
    elif P.task == "cost-complex-accuracy":        # the branching costs are not exact in binary
        e = 1 + opt // 2000
        out = [opt - e, opt + e, opt + P.den, opt - P.den - e, opt + 3 * P.den]
    else:
        e = opt // 50 + 100 + 2 * P.extra_free()["tol"]
        out = [opt - e, opt + e, opt - 3 * e, opt + 3 * e, opt * 2 + e, opt * 8 + e]
    return [v for v in out if v >= 0 and real(P, v) >= 0] + [FAR]


def bounded(ctx, count, clauses, names=NAMES, salt=0, **pk):
    rng = ctx.rng(66, salt)
    base = []
    for i in range(count):
        P = tasks.TASKS[names[i % len(names)]](rng, **pk)
        d, k = random_limits(rng, P)
        ml = int(rng.choice([1, 1, 2, 3]))
        item = {"id": "b%d" % i, "data": {"f": P.datum()}, "steps": [{"op": "new", "e": 1, "cls": P.cls, "kw": P.kw(d, k, ml, {})}, {"op": "fit", "e": 1, "d": "f"}]}
        base.append((P, d, k, ml, item))
    if ctx.only is None:
        first = run.run_items([b[4] for b in base])
    else:
        first = [run.run_items([b[4]])[0] if ctx.only == "u%d-%d" % (salt, i) else None for i, b in enumerate(base)]
    scen = []
    for i, ((P, d, k, ml, _), r) in enumerate(zip(base, first)):
        if isinstance(r, list) and "tree" in r[1]:
            ubs = around(rng, P, int(round(value(P, r[1]["tree"]))))
        else:
            ubs = [v for v in (0, 5, 10 ** 6) if real(P, v) >= 0]
        fits = []
        for v in ubs:
            fits += [(v, random_opts(rng, P)), (v, {})][: int(rng.integers(1, 3))]
        scen.append(scenario("u%d-%d" % (salt, i), P, d, k, ml, fits))
    return conform(ctx, scen, "FitTrace", clauses)


def scenario(key, P, d, k, ml, fits):
    steps = []
    for j, (v, opts) in enumerate(fits):
        steps += [{"op": "new", "e": j, "cls": P.cls, "kw": {**P.kw(d, k, ml, opts), "upper_bound": real(P, v)}}, {"op": "fit", "e": j, "d": "f"}]

    def events(res):
        g = [P.problem_event(key, P.eff_ml(ml), d)]
        for j, (v, _) in enumerate(fits):
            r = res if isinstance(res, dict) else res[2 * j + 1]
            g.append(P.fit_event("%s/%d" % (key, j), d, k, r, ub=v))
        return g
    return Scenario(key, {"id": key, "data": {"f": P.datum()}, "steps": steps}, events,
                    lambda: {"task": P.task, "n": P.n, "F": P.F, "ml": ml, "d": d, "k": k, "bounds": [[v, real(P, v), o] for v, o in fits]})
