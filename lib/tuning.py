"""Hyper-tuned fits: the printed validation scores, the chosen setting and the
final tree."""
import copy
import re
from fractions import Fraction

import numpy as np

import tasks
from core import Scenario, conform
from fits import random_limits, random_opts

RUN = re.compile(r"Tune phase (\d+)/(\d+) Split (\d+)/(\d+) Config (\d+)/(\d+) \t(.*?) \tScore: (\S+)")
SKIP = re.compile(r"Skipping configuration (\d+) to (\d+)")
BEST = re.compile(r"\(phase (\d+)/(\d+)\)\. Best config : (.*)")
LIMITS = re.compile(r"d=(\d+), n=(\d+)$")
LESS = {"cost-sensitive", "instance-cost-sensitive", "regression", "cost-complex-regression", "survival-analysis",
        "simple-linear-regression", "piecewise-linear-regression"}
NAMES = ["max_depth", "max_num_nodes", "cost_complexity", "min_leaf_node_size", "lasso_penalty", "ridge_penalty"]


def parse(text):
    """the recorded steps of the tuning; empty if the output has another form"""
    out, split = [], 0
    for line in text.splitlines():
        m = RUN.search(line)
        if m:
            ph, _, r, R, c, C = (int(v) for v in m.groups()[:6])
            split = r
            out.append(("score", ph, r, R, c, C, m.group(7).strip(), float(m.group(8))))
            continue
        m = SKIP.search(line)
        if m and out:
            out.append(("skip", int(m.group(1)), split))
            continue
        m = BEST.search(line)
        if m:
            out.append(("best", int(m.group(1)), int(m.group(2)), m.group(3).strip()))
    return out


def steps_of(key, P, text, perfect, ml, d):
    steps = parse(text)
    vals = [abs(s[7]) for s in steps if s[0] == "score" and abs(s[7]) < 1e6]
    S = 10 ** 6
    while vals and max(vals) * S > 10 ** 8:
        S //= 10
    one = P.task in ("accuracy", "instance-cost-sensitive") and 2 < P.n <= 5 and P.F <= 3 and P.K == 2 and d <= 2       # folds of one instance
    plain = P.task == "accuracy" and P.n % 5 == 0
    g = [{"ev": "tune", "id": key + "/start", "dir": -1 if P.task in LESS else 1, "S": S,
          "perfect": perfect if perfect < 0 else perfect * S, "fold": P.n // 5 if plain else 0,
          "p": P.record(1) if plain else {"task": "none"}, "one": int(one)}]
    if one:
        p = P.record(P.eff_ml(ml))
        p["rows"] = [{"x": [int(v) for v in P.X[i]], "n": 1, "s": P.stats(i)} for i in range(P.n)]
        g[0].update(p=p, fold=0)
    names = {}
    phase = 1
    for i, s in enumerate(steps):
        eid = "%s/%d" % (key, i)
        if s[0] == "score":
            _, ph, r, R, c, C, name, v = s
            if ph != phase:
                names, phase = {}, ph
            names.setdefault(c, name)
            if abs(v) < 1e12:       # a fold without a solution or without any cost leaves the settings incomparable
                g.append({"ev": "score", "id": eid, "c": c, "r": r, "C": C, "R": R, "s": round(max(-2e8, min(2e8, v * S)))})
        elif s[0] == "skip":
            g.append({"ev": "skip", "id": eid, "c": s[1], "r": s[2]})
        else:
            cs = [c for c, n in names.items() if n == s[3]]
            zero = int(names.get(1, "") == "d=0, n=0")
            lims = [LIMITS.match(names.get(c + 1, "")) for c in range(max(names, default=0))]
            lims = [[int(v) for v in m.groups()] for m in lims] if all(lims) else []
            g.append({"ev": "best", "lims": lims, "id": eid, "c": cs, "zero": zero, "last": int(s[1] == s[2])})
    return g


def chosen(P, params):
    """the problem under the chosen setting"""
    Q = copy.copy(P)
    a = float(params["cost_complexity"])
    if P.task in ("cost-complex-accuracy", "cost-complex-regression"):
        f = Fraction(a).limit_denominator(20000)
        Q.num, Q.den = f.numerator, f.denominator
    if P.task in ("simple-linear-regression", "piecewise-linear-regression"):
        Q.cc = a
        if P.simple:
            Q.ridge = float(params["lasso_penalty"])
        else:
            Q.lasso, Q.ridge = float(params["lasso_penalty"]), float(params["ridge_penalty"])
    return Q


def scenario(key, P, d, k, ml, kw, perfect):
    K = 2 ** d - 1 if k is None else min(k, 2 ** d - 1)
    item = {"id": key, "data": {"f": P.datum()},
            "steps": [{"op": "new", "e": 1, "cls": P.cls, "kw": kw}, {"op": "tuned", "e": 1, "d": "f", "names": NAMES}]}

    def events(res):
        r = res if isinstance(res, dict) else res[1]
        if "died" in r or "exc" in r:
            return [{"ev": "failed", "id": key}]
        g = steps_of(key, P, r["text"], perfect, ml, d)
        ps = r["params"]
        Q = chosen(P, ps)
        dd, kk = int(ps["max_depth"]), int(ps["max_num_nodes"])
        e = Q.fit_event(key + "/final", dd, kk, r)
        e.update(ev="final", D=d, K=K, p=Q.record(P.eff_ml(ml)), kept=int(ps["min_leaf_node_size"] == P.eff_ml(ml)))
        return g + [e]
    return Scenario(key, item, events, lambda: {"task": P.task, "n": P.n, "F": P.F, "ml": ml, "d": d, "k": k, "kw": kw})


def planted(P, rng):
    """rewrite the problem into ten copies of all feature vectors with targets
    of a tree of depth two, so that some candidate is perfect on every fold"""
    X = np.array([[(v >> f) & 1 for f in range(P.F)] for v in range(2 ** P.F)])
    f, g, h = (int(v) for v in rng.integers(0, P.F, size=3))
    top = X[:, f] == 1
    lab = np.where(top, X[:, g], 1 - X[:, h] if rng.random() < .5 else X[:, h])
    order = rng.permutation(10 * len(X))
    P.X = np.concatenate([X] * 10)[order]
    P.n = P.N = len(P.X)
    P.y = np.concatenate([lab] * 10)[order].astype(int)
    if P.task == "regression" or P.task == "cost-complex-regression":
        P.y = P.y * 6 - 2
        P.Kfx = 100
    else:
        P.y[:2] = P.y[:2]
        P.K = 2
    P.derive()


def tuned(ctx, names, count, clauses, salt=0, plant=False, depths=None, **pk):
    rng = ctx.rng(45, salt)
    scen = []
    for i in range(count):
        P = tasks.TASKS[names[i % len(names)]](rng, **{k: int(rng.choice(v)) for k, v in pk.items()})
        d, k = random_limits(rng, P, depths or ([1, 2] if P.pareto else [1, 2, 2, 3]))
        ml = int(rng.choice([1, 1, 2, 3]))
        perfect = -1
        if plant:
            planted(P, rng)
            if len(set(P.y)) < 2:
                continue
            d, k, ml = 2 + int(rng.integers(0, 2)), None, 1
            perfect = 0 if P.task in LESS else 1
        kw = P.kw(d, k, ml, random_opts(rng, P))
        if not P.free_nodes:
            kw.pop("max_num_nodes", None)
        kw.update(hyper_tune=True, verbose=True, random_seed=int(rng.integers(1, 1000)))
        scen.append(scenario("u%d-%d" % (salt, i), P, d, k, ml, kw, perfect))
    return conform(ctx, scen, "TuneTrace", clauses)
