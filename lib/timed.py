"""Fits during which the clock passes the time limit at a chosen query."""
import build
import run
import tasks
from core import Scenario, conform
from fits import random_limits, random_opts


def expiries(ctx, names, count, most, clauses, salt=0, tune=False, depths=None, **pk):
    """first count the clock queries of every fit, then let the clock jump at
    each of them (at most `most`, chosen evenly); fit again without a jump"""
    rng = ctx.rng(44, salt)
    env = {"LD_PRELOAD": build.preload("clock")}
    base = []
    for i in range(count):
        P = tasks.TASKS[names[i % len(names)]](rng, **pk)
        d, k = random_limits(rng, P, depths or ([1, 2, 2, 3] if P.pareto else [1, 2, 3, 3, 4]))
        ml = int(rng.choice([1, 1, 2, 3]))
        kw = P.kw(d, k, ml, random_opts(rng, P))
        if tune:
            kw["hyper_tune"] = True
        item = {"id": "c%d" % i, "data": {"f": P.datum()}, "steps": [{"op": "new", "e": 1, "cls": P.cls, "kw": kw}, {"op": "timed", "e": 1, "d": "f", "at": 10 ** 9}]}
        base.append((P, d, k, ml, kw, item))
    mine = [i for i in range(count) if ctx.only is None or ctx.only == "t%d-%d" % (salt, i)]
    first = dict(zip(mine, run.run_items([base[i][5] for i in mine], extra=env)))
    scen = []
    for i, (P, d, k, ml, kw, _) in enumerate(base):
        pick = rng.random(most)
        if i not in first:
            continue
        r = first[i][1] if isinstance(first[i], list) else {}
        n = r.get("queries", 0)
        at = list(range(n)) if n <= most else sorted({int((j + u) * n / most) for j, u in enumerate(pick)})
        scen.append(scenario("t%d-%d" % (salt, i), P, d, k, ml, kw, at, tune))
    ctx.extra["expiry_points"] = ctx.extra.get("expiry_points", 0) + sum(len(s.item["steps"]) // 2 - 1 for s in scen)
    return conform(ctx, scen, "FitTrace", clauses, extra_env=env)


def scenario(key, P, d, k, ml, kw, at, tune):
    steps = []
    for j, a in enumerate(at):
        steps += [{"op": "new", "e": j, "cls": P.cls, "kw": kw}, {"op": "timed", "e": j, "d": "f", "at": a}]
    # the estimator of the last expiry is used again
    steps.append({"op": "new", "e": len(at), "cls": P.cls, "kw": kw})
    steps.append({"op": "fit", "e": max(0, len(at) - 1), "d": "f"})

    def events(res):
        g = [P.problem_event(key, P.eff_ml(ml), d)]
        for j in range(len(at) + 1):
            r = res if isinstance(res, dict) else res[2 * j + 1]
            e = P.fit_event("%s/%d" % (key, j), d, k, r)
            if j < len(at) or tune:
                e["ev"] = "timed"
            if tune and e["res"] == "ok":
                e["opt"] = 0            # optimal for another setting
                if P.task == "simple-linear-regression":
                    e["hs"] = 0         # its penalty is tuned
            g.append(e)
        return g
    return Scenario(key, {"id": key, "data": {"f": P.datum()}, "steps": steps}, events,
                    lambda: {"task": P.task, "n": P.n, "F": P.F, "ml": ml, "d": d, "k": k, "kw": kw, "queries": at})
