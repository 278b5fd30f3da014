"""Sequences of subproblem and lower-bound queries to one solver."""
import sys

import build
import tasks
from bounds import bounded
from cli import arguments, cost_file, every_opts, lines
from core import Scenario, conform
from fits import OPTIMAL, family

TOP = 10 ** 9
NAMES = ["accuracy", "cost-complex-accuracy", "regression", "cost-complex-regression", "cost-sensitive", "instance-cost-sensitive",
         "prescriptive-policy", "survival-analysis", "simple-linear-regression", "piecewise-linear-regression", "f1-score", "accuracy"]


def value(P, v, n):
    """a value of the solver for n instances in the units of the specification"""
    if P.task == "accuracy":
        r = v
    elif P.task == "cost-complex-accuracy":
        r = v * P.den
    elif P.task in ("cost-sensitive", "instance-cost-sensitive"):
        r = v * P.div
    elif P.task == "prescriptive-policy":
        r = 4 * v + n * P.offset()
    elif P.task in ("regression", "cost-complex-regression"):
        r = v * P.Kfx * P.div ** 2
    else:
        r = v * P.Kfx
    return tasks.fx(max(-TOP, min(TOP, r)), 1)


def random_queries(rng, P, D):
    """commands as (op, path, d, k, a, c); paths return under other budgets,
    bounds and orders of their tests"""
    pool, out = [], []
    for _ in range(int(rng.integers(6, 16))):
        u = rng.random()
        if u < .06:
            out.append(("s",))
            continue
        if u < .12:
            out.append(("i", int(rng.integers(0, 2))))
            continue
        if u < .15:
            out.append(("u", int(2 ** rng.uniform(0, 9))))
            continue
        if pool and rng.random() < .6:
            path = list(pool[int(rng.integers(0, len(pool)))])
            if rng.random() < .4:
                rng.shuffle(path)
        else:
            j = int(rng.choice([0, 1, 1, 2, 2, 3]))
            j = min(j, D - 1, P.F)
            path = [(int(f), int(rng.integers(0, 2))) for f in rng.permutation(P.F)[:j]]
            pool.append(path)
        path = [(int(f), int(v)) for f, v in path]
        d = int(rng.integers(0, D - len(path) + 1))
        if rng.random() < .5:
            d = D - len(path)
        k = 2 ** d - 1 if not P.free_nodes or rng.random() < .4 else int(rng.integers(d, 2 ** d))
        if rng.random() < .12:
            out.append(("t", path, d, k, int(2 ** rng.uniform(0, 8))))
            continue
        if rng.random() < .25:
            out.append(("l", path, d, k))
            continue
        if rng.random() < .4:
            a, c = -1, 0
        elif P.pareto:
            a, c = int(rng.integers(0, 3)), int(rng.choice([0, 1, 1, 2]))
        else:
            a, c = [(1, 0), (1, 1), (1, 1), (1, 2), (1, 5), (0, 0), (1, -1), (1.5, 0), (0.5, 0), (1.05, 0), (1, 0.26), (1.3, 0)][int(rng.integers(0, 12))]
        out.append(("q", path, d, k, a, c))
    return out


def scenario(rng, key, P):
    D = int(rng.choice([2, 3, 3] if P.pareto else [2, 3, 3, 4]))
    ml = P.eff_ml(int(rng.choice([1, 1, 2, 3])))
    args = arguments(P, D, None, ml, every_opts(rng, P), rng)
    files = {"train.txt": lines(P, range(P.n), [[]] * P.n)}
    args.append(("file", "train.txt"))
    if P.task == "cost-sensitive":
        files["costs.txt"] = cost_file(P)
        args.append(("cost-file", "costs.txt"))
    cmds = random_queries(rng, P, D)
    text = ""
    for c in cmds:
        if c[0] in "siu":
            text += " ".join(map(str, c)) + "\n"
        elif c[0] == "t":
            text += " ".join(map(str, ["t", c[4], len(c[1])] + [x for st in c[1] for x in st] + [c[2], c[3]])) + "\n"
        else:
            text += " ".join(map(str, [c[0], len(c[1])] + [x for st in c[1] for x in st] + list(c[2:]))) + "\n"
    files["commands.txt"] = text
    item = {"id": key, "data": {}, "steps": [{"op": "cli", "exe": "PROBE", "files": files, "args": ["commands.txt"] + [v for n, a in args for v in ("-" + n, a)]}]}

    def events(res):
        g = [P.problem_event(key, ml, D)]
        r = res if isinstance(res, dict) else res[0]
        said = [ln.split() for ln in r.get("out", "").splitlines()]
        turn = said.pop(0) if said else []
        for j, c in enumerate(cmds):
            eid = "%s/%d" % (key, j)
            if j >= len(said) or not said[j] or said[j][0] != c[0]:
                g.append({"ev": "fail", "id": eid})
                return g
            if c[0] in "situ":
                continue
            w = said[j]
            n = int(w[1])
            rest = w[2:]
            if n == 0 or any(turn[f] == "x" for f, _ in c[1]):
                continue
            path = [[f, v if turn[f] == "1" else 1 - v] for f, v in c[1]]
            e = {"ev": "query" if c[0] == "q" else "bound", "id": eid, "path": path, "size": n, "d": c[2], "k": c[3]}
            if P.pareto:
                got = []
                while rest:
                    m = int(rest[0])
                    got.append([[int(rest[1 + 2 * i]), int(rest[2 + 2 * i])] for i in range(m)])
                    rest = rest[1 + 2 * m:]
                e["vals"] = got[-1]
                if c[0] == "q":
                    e["ubs"] = got[0]
            else:
                e["none"] = int(rest[-1] == "none")
                e["v"] = 2 * TOP if e["none"] else value(P, float(rest[-1]), n)
                if c[0] == "q":
                    e["hasub"] = int(rest[0] != "none")
                    e["ub"] = value(P, float(rest[0]), n) if e["hasub"] else 0
            g.append(e)
        return g
    return Scenario(key, item, events, lambda: {"task": P.task, "n": P.n, "F": P.F, "ml": ml, "D": D, "args": item["steps"][0]["args"], "commands": text.splitlines()})


def queries(ctx, count, clauses):
    build.build()
    try:
        exe = build.driver("probe")
    except build.BuildError as e:
        # the solver class has another shape: reach subproblems and bounds through the estimators only
        print("subproblem driver does not fit this tree, using fits and upper bounds instead: %s" % str(e)[-300:], file=sys.stderr)
        family(ctx, NAMES, count // 5, OPTIMAL, nfits=5, salt=19)
        bounded(ctx, count // 5, {"feasible", "bound", "optimal", "unproved", "crash"}, salt=19)
        return
    rng = ctx.rng(19)
    scen = [scenario(rng, "q%d" % i, tasks.TASKS[NAMES[i % len(NAMES)]](rng)) for i in range(count)]
    conform(ctx, scen, "SubTrace", clauses, extra_env={"PROBE": exe})
