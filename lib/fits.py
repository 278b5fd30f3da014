"""Scenarios made of fits of one training problem under varying limits and
options, each followed by predictions and evaluations."""
import json
import os

import build
from core import Scenario, conform
import tasks


def random_opts(rng, P, plain=0.3):
    opts = {}
    if rng.random() >= plain:
        opts = {o: bool(rng.random() < 0.5) for o in P.options}
    if P.gini_ok:
        opts["feature_ordering"] = str(rng.choice(["gini", "in-order"]))
    return opts


def similar_opts(rng, P):
    """the defaults, but comparing with similar data, and with subproblems that no closed form solves"""
    opts = {}
    if "use_similarity_lower_bound" in P.options:
        opts["use_similarity_lower_bound"] = True
    if "use_terminal_solver" in P.options and rng.random() < .5:
        opts["use_terminal_solver"] = False
    if rng.random() < .5:
        opts["use_branch_caching"] = True
        if "use_dataset_caching" in P.options:
            opts["use_dataset_caching"] = bool(rng.random() < .5)
    return opts


def random_limits(rng, P, depths=None):
    d = int(rng.choice(depths or ([0, 1, 2, 2, 3] if P.pareto else [0, 1, 2, 3, 3, 4])))
    k = None
    if P.free_nodes and rng.random() < 0.5:
        k = int(rng.integers(0, 2 ** d))
    if d > 5:           # without caches, the search tries all ways to share out the nodes
        d, k = (d, int(rng.integers(0, 20))) if P.free_nodes else (5, None)
    return d, k


def fit_scenario(rng, key, P, ml, fits, pred=True, evals=True, subsets=False):
    """fits: list of (d, k, opts)"""
    steps, plan = [], []
    for j, (d, k, opts) in enumerate(fits):
        e = "e%d" % j
        steps += [{"op": "new", "e": e, "cls": P.cls, "kw": P.kw(d, k, ml, opts)}, {"op": "fit", "e": e, "d": "f"}]
        plan.append(("fit", j, len(steps) - 1, None))
        def pickrows():
            return list(range(P.n)) if not subsets else [int(v) for v in rng.integers(0, P.N, size=int(rng.integers(1, P.N + 1)))]
        if pred:
            ix = pickrows()
            steps.append({"op": "predict", "e": e, "d": "t", "rows": ix})
            plan.append(("pred", j, len(steps) - 1, ix))
        if pred and P.task == "survival-analysis":
            ix, kind = pickrows(), str(rng.choice(["survival", "hazard"]))
            steps.append({"op": "curves", "e": e, "d": "t", "rows": ix, "kind": kind, "array": bool(rng.random() < .5)})
            plan.append((kind, j, len(steps) - 1, ix))
        if evals:
            ix = P.scorable(pickrows())
            steps.append({"op": "eval", "e": e, "d": "t", "rows": ix})
            plan.append(("eval", j, len(steps) - 1, ix))
    item = {"id": key, "data": {"f": P.datum(), "t": P.datum(range(P.N))}, "steps": steps}
    D = max(f[0] for f in fits)

    def events(res):
        g = [P.problem_event(key, P.eff_ml(ml), D)]
        cur = None
        for kind, j, at, ix in plan:
            r = res if isinstance(res, dict) else res[at]
            eid = "%s/%d%s" % (key, j, kind)
            if kind == "fit":
                ev = P.fit_event(eid, fits[j][0], fits[j][1], r)
                cur = r["tree"] if ev["res"] == "ok" else None
                g.append(ev)
            elif cur is not None and kind in ("survival", "hazard"):
                g.append(P.curves_event(eid, ix, kind, r))
            elif cur is not None:
                g.append((P.pred_event if kind == "pred" else P.eval_event)(eid, ix, r, cur))
        return g
    return Scenario(key, item, events, lambda: {"task": P.task, "n": P.n, "F": P.F, "ml": ml, "fits": [[f[0], f[1], f[2]] for f in fits]})


def family(ctx, task_names, count, clauses, nfits=4, depths=None, mls=(1, 1, 2, 3, 5), pred=False, evals=False, subsets=False, opts=None, salt=0,
           module="FitTrace", Fs=None, ns=None, **pk):
    rng = ctx.rng(salt)
    scen = []
    for i in range(count):
        if Fs:
            pk["F"] = int(rng.choice(Fs))
        if ns:
            pk["n"] = int(rng.choice(ns))
        P = tasks.TASKS[task_names[i % len(task_names)]](rng, **pk)
        ml = int(rng.choice(mls))
        fits = []
        for _ in range(nfits):
            d, k = random_limits(rng, P, depths)
            fits.append((d, k, (opts or random_opts)(rng, P)))
        scen.append(fit_scenario(rng, "s%d-%d" % (salt, i), P, ml, fits, pred, evals, subsets))
    return conform(ctx, scen, module, clauses)


def stored(ctx, name, clauses, salt):
    """problems kept because a search once went wrong on them"""
    rng = ctx.rng(salt)
    scen = []
    with open(os.path.join(build.VERIF, "corpus", name)) as fh:
        for i, line in enumerate(fh):
            r = json.loads(line)
            P = tasks.TASKS[r["task"]].restore(rng, r)
            fits = [(r["d"], None, o) for o in ({}, {"use_similarity_lower_bound": True}, *(random_opts(rng, P, plain=0) for _ in range(4)))]
            scen.append(fit_scenario(rng, "s%d-%d" % (salt, i), P, r["ml"], fits, False, False))
    return conform(ctx, scen, "FitTrace", clauses)


OPTIMAL = {"optimal", "feasible", "crash", "unproved"}
MODELS = {"accuracy": "acc", "cost-complex-accuracy": "cca", "cost-complex-regression": "ccr", "cost-sensitive": "cs", "equality-of-opportunity": "eo",
          "f1-score": "f1", "group-fairness": "gf", "instance-cost-sensitive": "ics", "regression": "reg"}


def optimum_check(ctx, task_names, quick, thorough, clauses=OPTIMAL, wide=0.12, near=0.5):
    """the definition of the optimum itself, then the standard families: small
    problems under all limits and options; fewer, wider problems with deep trees;
    problems whose features nearly repeat each other; shallow trees over many
    features; many rows; depth limits beyond the usual"""
    for t in task_names:
        if t in MODELS:
            ctx.model("MCOptimal", "MCOptimal_" + MODELS[t] + ctx.pick("", "_2"), workers=8)
    n = ctx.pick(quick, thorough)
    family(ctx, task_names, n, clauses, salt=0)
    T = [tasks.TASKS[t] for t in task_names]
    pareto, real = any(t.pareto for t in T), any(not t.gini_ok for t in T)
    family(ctx, task_names, max(20, int(n * wide)), clauses, salt=1, Fs=[6, 7], ns=[12, 20, 40, 80], depths=[2, 3] if pareto else [3, 3, 4], nfits=5)
    family(ctx, task_names, max(20, int(n * near)), clauses, salt=2, Fs=[4, 5, 6], ns=[8, 10, 16, 24], depths=[2, 3] if pareto else [3, 3, 4], nfits=3,
           near=True, opts=similar_opts)
    if not any(issubclass(t, tasks.Table) for t in T):
        family(ctx, task_names, ctx.pick(16, 160), clauses, salt=3, Fs=[13, 20, 33] if pareto else [16, 33, 40, 70], ns=[20, 30] if pareto else [20, 30, 60],
               depths=[1, 2, 2], nfits=6)
    family(ctx, task_names, ctx.pick(24, 160), clauses, salt=4, Fs=[3, 4, 5], ns=[150] if pareto or real else [150, 300, 1000, 3000],
           depths=[2, 3] if pareto else [2, 3, 4], nfits=5, mls=(1, 5, 20, 60))
    # deep trees, and depth limits beyond what the features allow
    family(ctx, task_names, ctx.pick(16, 120), clauses, salt=5, Fs=[4] if pareto else [5, 6], ns=[10, 14] if pareto else [24, 40, 64],
           depths=[4, 4, 5] if pareto else [5, 5, 6], nfits=6)
    family(ctx, task_names, ctx.pick(24, 200), clauses, salt=6, Fs=[1, 2, 3], ns=[8, 16, 24], depths=[4, 5, 6, 9, 13, 20], nfits=6)
