"""The same training problem under different search options and data orders."""
import itertools

import tasks
from core import Scenario, conform
from fits import random_opts


def orders(P):
    return ["gini", "in-order"] if P.gini_ok else [None]


def bounds(P):
    return ["kmeans", "equivalent"] if "regression_lower_bound" in P.base_kw else [None]


def with_order(opts, order, bound=None):
    o = dict(opts)
    if order:
        o["feature_ordering"] = order
    if bound:
        o["regression_lower_bound"] = bound
    return o


def full(rng, P, most):
    """all option sets, or a random selection of `most` of them"""
    out = [with_order(dict(zip(P.options, v)), o, b) for v in itertools.product([False, True], repeat=len(P.options)) for o in orders(P) for b in bounds(P)]
    if len(out) > most:
        out = [out[i] for i in rng.choice(len(out), size=most, replace=False)]
    return out


def around(rng, P):
    """defaults, nothing, everything, each option alone on and alone off, and random ones"""
    names = P.options
    out = [{}, {o: False for o in names}, {o: True for o in names}]
    for o in names:
        out.append({**{q: False for q in names}, o: True})
        out.append({**{q: True for q in names}, o: False})
    os_, bs = orders(P), bounds(P)
    out = [with_order(v, os_[int(rng.integers(0, len(os_)))], bs[int(rng.integers(0, len(bs)))]) for v in out]
    return out + [random_opts(rng, P, plain=0) for _ in range(6)]


def remap(t, cols):
    if len(t) == 1:
        return t
    return [cols[t[0]] if 0 <= t[0] < len(cols) else t[0], remap(t[1], cols), remap(t[2], cols)]


def scenario(rng, key, P, ml, d, k, optsets, oracle, mixed):
    steps, plan, data = [], [], {"f": P.datum()}
    for j, opts in enumerate(optsets):
        name, cols, kw = "f", None, {}
        if mixed and rng.random() < 0.5:
            name = "f%d" % j
            rows = [int(v) for v in rng.permutation(P.n)] if rng.random() < 0.7 else list(range(P.n))
            data[name], cols, kw = P.shuffled(rng, rows)
        steps += [{"op": "new", "e": "e%d" % j, "cls": P.cls, "kw": {**P.kw(d, k, ml, opts), **kw}}, {"op": "fit", "e": "e%d" % j, "d": name}]
        plan.append((len(steps) - 1, cols))

    def events(res):
        g = [P.problem_event(key, P.eff_ml(ml), d, table=oracle)]
        for j, (at, cols) in enumerate(plan):
            r = res if isinstance(res, dict) else res[at]
            if "tree" in r and cols:
                r = {**r, "tree": remap(r["tree"], cols)}
            e = P.fit_event("%s/%d" % (key, j), d, k, r)
            if e["res"] == "ok" and not oracle:
                e["costs"] = P.cost_tree(r["tree"])
                e.pop("loss", None)
            g.append(e)
        return g
    return Scenario(key, {"id": key, "data": data, "steps": steps}, events,
                    lambda: {"task": P.task, "n": P.n, "F": P.F, "ml": ml, "d": d, "k": k, "options": optsets})


def limits(rng, P, depths):
    d = int(rng.choice(depths))
    k = int(rng.integers(1, 2 ** d)) if P.free_nodes and rng.random() < 0.4 else None
    return d, k


def small(ctx, names, count, most, clauses, salt=0):
    """all option sets on problems whose optimum is known"""
    rng = ctx.rng(55, salt)
    scen = []
    for i in range(count):
        P = tasks.TASKS[names[i % len(names)]](rng, n=int(rng.choice([8, 12, 20, 40, 60])), F=int(rng.integers(3, 6)))
        d, k = limits(rng, P, [2, 2, 3, 3] if P.pareto else [2, 3, 3, 4])
        scen.append(scenario(rng, "o%d-%d" % (salt, i), P, int(rng.choice([1, 1, 2, 4])), d, k, full(rng, P, most), True, True))
    return conform(ctx, scen, "FitTrace", clauses)


def large(ctx, names, count, clauses, salt=0):
    """larger problems, on which the fits must agree with each other"""
    rng = ctx.rng(56, salt)
    scen = []
    for i in range(count):
        T = tasks.TASKS[names[i % len(names)]]
        if T.pareto:
            F, n, ds = [6, 7, 8], [30, 50, 70], [2, 3, 3]
        elif issubclass(T, tasks.Linear):
            F, n, ds = [6, 7], [60, 100], [2, 3, 3]
        elif issubclass(T, tasks.Table):
            F, n, ds = [7, 8, 9], [60, 120], [3, 3, 4]
        else:
            F, n, ds = [8, 9, 10, 11], [60, 120, 200], [3, 4, 4]
        P = T(rng, n=int(rng.choice(n)), F=int(rng.choice(F)))
        d, k = limits(rng, P, ds)
        scen.append(scenario(rng, "p%d-%d" % (salt, i), P, int(rng.choice([1, 1, 2, 5, 9])), d, k, around(rng, P), False, True))
    return conform(ctx, scen, "OptionTrace", clauses, hang_s=120)


def wide(ctx, names, count, clauses, salt=0):
    """many features, beyond one machine word of them for the cheapest tasks"""
    rng = ctx.rng(57, salt)
    scen = []
    for i in range(count):
        T = tasks.TASKS[names[i % len(names)]]
        if T.pareto:
            F, n, ds = [14, 18], [20, 30], [2]
        elif issubclass(T, tasks.Table):
            F, n, ds = [16, 20], [30, 50], [2, 2, 3]
        elif T is tasks.Accuracy or T is tasks.CostComplexAccuracy:
            F, n, ds = [24, 36, 70], [30, 60], [2, 3]
        else:
            F, n, ds = [18, 24, 40], [30, 60], [2, 2, 3]
        P = T(rng, n=int(rng.choice(n)), F=int(rng.choice(F)))
        d, k = limits(rng, P, ds)
        if P.F > 30:
            d = 2
            k = k and min(k, 3)
        optsets = around(rng, P)
        pick = [0, 1, 2] + [int(j) for j in rng.choice(range(3, len(optsets)), size=5, replace=False)]
        scen.append(scenario(rng, "w%d-%d" % (salt, i), P, int(rng.choice([1, 1, 2, 5])), d, k, [optsets[j] for j in pick], False, True))
    return conform(ctx, scen, "OptionTrace", clauses, hang_s=120)
