"""The command-line program run on data files."""
import copy
import re

import numpy as np

import build
import tasks
import tuning
from core import Scenario, conform
from exports import TERM
from fits import random_limits, random_opts
from options import remap

RENAME = {"optimization_task": "task", "teacher_method": "ppg-teacher-method", "regression_lower_bound": "regression-bound"}


def columns(P, i):
    """label and extra columns of row i"""
    t = P.task
    if t == "instance-cost-sensitive":
        return [int(P.argmin[i])] + P.yval([i])[0], P.K
    if t == "prescriptive-policy":
        return [int(P.k[i])] + P.yval([i])[0], P.K
    if t == "survival-analysis":
        return [float(P.t[i]), int(P.e[i])], 1
    if hasattr(P, "c"):
        return [P.yval([i])[0]] + [float(v) for v in P.c[i]], P.m
    return [P.yval([i])[0]], 0


def sens(P):
    return int(P.base_kw.get("sensitive_feature", 0))


def order(P):
    s = sens(P)
    return [s] + [f for f in range(P.F) if f != s]


def lines(P, ix, junk, eol="\n"):
    cols = order(P)
    out = [" ".join([repr(v) for v in columns(P, i)[0]] + [str(int(P.X[i][c])) for c in cols] + [str(int(v)) for v in j]) + eol
           for i, j in zip(ix, junk)]
    return "".join(out)


def cost_file(P):
    c = P.datum()["costs"]
    return "".join(" ".join(repr(v) for v in r) + "\n" for r in c["matrix"]) + "name cost discount group begin end\n" + \
           "".join("f%d %r %r %s %d %d\n" % ((j,) + tuple(f)) for j, f in enumerate(c["features"])) + "\n" * (len(c["features"]) % 2)


def every_opts(rng, P):
    """random options; the program has some that an estimator keeps to itself"""
    opts = random_opts(rng, P)
    for o in tasks.OPTIONS:
        if o not in opts and rng.random() < .4:
            opts[o] = bool(rng.random() < .5)
    return opts


def arguments(P, d, k, ml, opts, rng):
    kw = P.kw(d, k, ml, opts)
    kw.pop("sensitive_feature", None)
    kw.pop("simple", None)
    kw["optimization_task"] = P.task
    kw["max_num_nodes"] = 2 ** d - 1 if k is None else k
    args = [("random-seed", str(int(rng.integers(0, 1000)))), ("num-extra-cols", str(columns(P, 0)[1]))]
    for key, v in kw.items():
        args.append((RENAME.get(key, key.replace("_", "-")), str(int(v)) if isinstance(v, bool) else repr(v) if isinstance(v, float) else str(v)))
    rng.shuffle(args)
    return args


def tree_of(s, P):
    """the bracketed tree, with the columns numbered as in the problem"""
    at = 0

    def rec():
        nonlocal at
        assert s[at] == "["
        at += 1
        m = re.match(r"(\d+),\[", s[at:])
        if m:
            f = int(m.group(1))
            at += m.end() - 1
            a = rec()
            assert s[at] == ","
            at += 1
            b = rec()
            assert s[at] == "]"
            at += 1
            return [f, a, b]
        e = s.index("]", at)
        lab, at = s[at:e], e + 1
        if P.task.endswith("linear-regression"):
            b = [0.0] * (P.m + 1)
            for x, j in TERM.findall(lab):
                b[int(j or 0)] += float(x.replace(" ", ""))
            return [{"b0": b[0], "b": b[1:]}]
        return [float(lab) if P.ykind == "surv" or isinstance(P, tasks.Regression) else int(lab)]
    t = rec()
    assert at == len(s)
    return remap(t, order(P))


def listed(r, P):
    """every solution the program printed, in the form of a worker's fit result, and its test result"""
    out = []
    trees = dict(re.findall(r"^Tree (\d+): (.*)$", r["out"], re.M))
    for i, dep, nod, train, test, ql in re.findall(r"^Solution (\d+):\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s*$", r["out"], re.M):
        tree = tree_of(trees[i].strip(), P)
        out.append(({"feas": True, "opt": "No proof" not in r["out"], "tree": tree, "depth": int(dep), "nodes": int(nod), "score": float(train), "ql": 0.0},
                    {"score": float(test), "ql": float(ql)}))
    return out


def reported(r, P):
    """the first solution"""
    if r.get("rc") != 0 or "closed successfully" not in r["out"]:
        return {"exc": "cli", "msg": str(r)[-300:]}, None
    if "No tree found" in r["out"]:
        return {"feas": False}, None
    try:
        return listed(r, P)[0]
    except (AssertionError, ValueError, IndexError, KeyError):
        return {"exc": "cli", "msg": r["out"][-300:]}, None


def repeat(P, d, drop):
    """every training instance d times, except that the last copies are dropped"""
    Q = copy.copy(P)
    for k, v in vars(P).items():
        if isinstance(v, np.ndarray) and v.ndim and len(v) == P.N and k not in ("m", "std"):
            setattr(Q, k, np.repeat(v[:P.n], d, axis=0)[:P.n * d - drop])
    Q.n = Q.N = P.n * d - drop
    Q.derive()
    return Q


def full_scenario(rng, key, P):
    """all instances of the file, a test file or the training data as test data"""
    d, k = random_limits(rng, P, [1, 2, 3] if P.pareto else [0, 1, 2, 3, 4])
    ml = P.eff_ml(int(rng.choice([1, 1, 2, 3])))
    opts = every_opts(rng, P)
    args = arguments(P, d, k, ml, opts, rng)
    dup = int(rng.choice([2, 3])) if P.n <= 20 and rng.random() < .25 and P.task != "cost-sensitive" else 1
    drop = int(rng.integers(0, dup)) if P.n > 2 else 0
    Q = repeat(P, dup, drop) if dup > 1 else P
    wide = int(rng.choice([0, 0, 1, 3]))
    junk = rng.integers(0, 2, size=(P.N, wide))
    files = {"train.txt": lines(P, range(P.n), junk, str(rng.choice(["\n", "\n", "\n", "\r\n"])))}
    shape = int(rng.integers(0, 4))
    if shape == 1:
        files["train.txt"] += "\n"
    elif shape == 2:
        files["train.txt"] = files["train.txt"].rstrip("\n").rstrip("\r")
    if wide or rng.random() < .1:
        args.append(("max-num-features", str(P.F)))
    if dup > 1:
        args.append(("duplicate-factor", str(dup)))
    if drop or (dup == 1 and rng.random() < .2):
        args.append(("num-instances", str(Q.n if drop else Q.n + int(rng.integers(0, 3)))))
    test = None
    if P.N > P.n and rng.random() < .6 and not (dup > 1 and P.task == "survival-analysis"):
        test = P.scorable([int(v) for v in rng.integers(0, P.N, size=int(rng.integers(1, P.N + 1)))])
        files["test.txt"] = lines(P, test, junk[test])
        args.append(("test-file", "test.txt"))
    if P.task == "cost-sensitive":
        files["costs.txt"] = cost_file(P)
        args.append(("cost-file", "costs.txt"))
    args.insert(int(rng.integers(0, len(args))), ("file", "train.txt"))
    item = {"id": key, "data": {}, "steps": [{"op": "cli", "files": files, "args": [v for n, a in args for v in ("-" + n, a)]}]}

    def events(res):
        r = res if isinstance(res, dict) else res[0]
        fit, ev = reported(r, P)
        g = [Q.problem_event(key, ml, d), Q.fit_event(key + "/fit", d, k, fit)]
        if ev:
            R, rows = (Q, range(Q.n)) if test is None else (P, test)
            g.append(R.eval_event(key + "/test", rows, ev, fit["tree"]))
            for i, (o, ev) in enumerate(listed(r, P)[1:8]):     # the other solutions of a front
                g.append(dict(Q.fit_event("%s/fit%d" % (key, i + 1), d, k, o), ev="other"))
                g.append(R.eval_event("%s/test%d" % (key, i + 1), rows, ev, o["tree"]))
        return g
    return Scenario(key, item, events, lambda: {"task": P.task, "n": P.n, "F": P.F, "dup": dup, "args": item["steps"][0]["args"]})


def part_problem(rng):
    """data in which every instance can be told from what is reported"""
    n = int(rng.integers(3, 9))
    F = int(rng.integers(1, 4))
    P = tasks.TASKS[str(rng.choice(["regression", "instance-cost-sensitive", "accuracy"], p=[.45, .4, .15]))](rng, n=n, F=F)
    code = rng.permutation([1, 2, 4, 8, 16, 32, 64, 128])[:n]
    if P.task == "regression":
        P.y, P.div = np.array([int(v) for v in code]), 1
        P.Kfx = 100
        if P.base_kw.get("regression_lower_bound"):
            P.base_kw["regression_lower_bound"] = "equivalent"
    elif P.task == "instance-cost-sensitive":
        P.K, P.div = 2, 1
        P.c = np.array([[int(v), int(v) * 3 + (7 if j % 2 else 2 * (-int(v)))] for j, v in enumerate(code)])
        P.argmin = rng.integers(0, 2, size=n)     # the label column only serves to stratify
        P.argmin[:2] = [0, 1]
    return P


def part_scenario(rng, key, P):
    d = int(rng.choice([0, 1, 2]))
    args = arguments(P, d, None, 1, every_opts(rng, P), rng)
    want = P.n
    if rng.random() < .35:
        want = int(rng.integers(1, P.n + 1))
        args.append(("num-instances", str(want)))
    den = int(rng.choice([4, 5, 10]))
    num, strat = 0, 1
    if want == P.n or (P.n <= 6 and rng.random() < .5):
        num = int(rng.integers(1, den))
        args.append(("train-test-split", repr(num / den)))
    if rng.random() < .5:
        strat = 0
        args.append(("stratify", "0"))
    args.append(("file", "all.txt"))
    files = {"all.txt": lines(P, range(P.n), [[]] * P.n)}
    item = {"id": key, "data": {}, "steps": [{"op": "cli", "files": files, "args": [v for n, a in args for v in ("-" + n, a)]}]}

    def events(res):
        r = res if isinstance(res, dict) else res[0]
        fit, ev = reported(r, P)
        e = P.fit_event(key, d, None, fit)
        p = P.record(1)
        p["rows"] = [{"x": [int(v) for v in P.X[i]], "n": 1, "s": P.stats(i)} for i in range(P.n)]
        label = [0] * P.n if P.task == "regression" else [int(columns(P, i)[0][0]) for i in range(P.n)]
        e.update(ev="part", p=p, want=want, num=num, den=den, label=label if strat else [0] * P.n, same=int(num == 0))
        if ev:
            fin = ev["score"] == ev["score"]
            e.update(tscore=P.score_fx(ev["score"]) if fin else 0, tql=tasks.fx(ev["ql"], 10000) if ev["ql"] == ev["ql"] else 0, tnan=int(not fin))
        return [e]
    return Scenario(key, item, events, lambda: {"task": P.task, "n": P.n, "F": P.F, "args": item["steps"][0]["args"]})


def tuned_scenario(rng, key, P):
    """tuning of the limits through the program"""
    d, k = random_limits(rng, P, [1, 2] if P.pareto else [1, 2, 2, 3])
    ml = P.eff_ml(int(rng.choice([1, 1, 2, 3])))
    K = 2 ** d - 1 if k is None else min(k, 2 ** d - 1)
    args = arguments(P, d, K, ml, every_opts(rng, P), rng) + [("hyper-tune", "1")]
    files = {"train.txt": lines(P, range(P.n), [[]] * P.n)}
    if P.task == "cost-sensitive":
        files["costs.txt"] = cost_file(P)
        args.append(("cost-file", "costs.txt"))
    args.insert(int(rng.integers(0, len(args))), ("file", "train.txt"))
    item = {"id": key, "data": {}, "steps": [{"op": "cli", "files": files, "args": [v for n, a in args for v in ("-" + n, a)]}]}

    def events(res):
        r = res if isinstance(res, dict) else res[0]
        fit, _ = reported(r, P)
        if "exc" in fit:
            return [{"ev": "failed", "id": key}]
        g = tuning.steps_of(key, P, r["out"], -1, ml, d)
        best = [s[3] for s in tuning.parse(r["out"]) if s[0] == "best"]
        m = tuning.LIMITS.match(best[-1]) if best else None
        dd, kk = (int(v) for v in m.groups()) if m else (d, K)
        e = P.fit_event(key + "/final", dd, kk, fit)
        e.update(ev="final", D=d, K=K, p=P.record(ml), kept=1)
        return g + [e] if m or not best else g
    return Scenario(key, item, events, lambda: {"task": P.task, "n": P.n, "F": P.F, "args": item["steps"][0]["args"]})


def files(ctx, count, parts, tunes, clauses):
    build.cli()
    rng = ctx.rng(22)
    names = list(tasks.TASKS)
    scen = [full_scenario(rng, "f%d" % i, tasks.TASKS[names[i % len(names)]](rng, hold=0.3)) for i in range(count)]
    conform(ctx, scen, "FitTrace", clauses)
    scen = [part_scenario(rng, "p%d" % i, part_problem(rng)) for i in range(parts)]
    conform(ctx, scen, "PartTrace", clauses)
    names = ["accuracy", "regression", "cost-sensitive", "instance-cost-sensitive", "prescriptive-policy", "survival-analysis", "f1-score"]
    scen = [tuned_scenario(rng, "u%d" % i, tasks.TASKS[names[i % len(names)]](rng)) for i in range(tunes)]
    conform(ctx, scen, "TuneTrace", clauses)
