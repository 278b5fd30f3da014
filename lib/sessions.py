"""Behaviours of spec/Session.tla replayed on the estimators."""
import copy
import json

import run
import tasks
from core import Scenario, conform
from fits import random_limits, random_opts

NAN, INF = float("nan"), float("inf")


def behaviours(seed, count, steps):
    """distinct call sequences of Session, from TLC's simulation"""
    out, seen, tries = [], set(), 0
    while len(out) < count and tries < 5:
        rc, txt, _, _ = run.tlc("GenSession", env={"STEPS": str(steps)}, ok_codes=None,
                                args=["-simulate", "num=%d" % (count * 2), "-depth", str(steps + 1), "-seed", str(seed * 10 + tries)])
        tries += 1
        for line in txt.splitlines():
            if not line.startswith('"SESSION '):
                continue
            h = json.loads(json.loads(line)[8:])
            key = json.dumps(h[:-1])
            if key not in seen and len(out) < count:
                seen.add(key)
                out.append(h)
    if len(out) < count // 2:
        raise run.Trouble("only %d behaviours generated" % len(out))
    return out


# ---------------------------------------------------------------- bad inputs
def _edit(**kw):
    def f(d):
        d.update(kw)
    return f


def _cut(field, n=1):
    def f(d):
        d[field] = d[field][:-n]
    return f


def _add(field):
    def f(d):
        d[field] = d[field] + d[field][:1]
    return f


def _cell(field, j, v):
    def f(d):
        if j is None:
            d[field][0] = v
        else:
            d[field][0][j] = v
    return f


def _x(v):
    def f(d):
        d["dtype"] = "float64"
        d["X"][0][0] = v
    return f


def _flat(d):
    d["flat"] = True


def _empty(d):
    d.update(X=[], y=[], F=len(d["X"][0]))
    for k in ("cont", "extra"):
        if k in d:
            d[k] = []


def _one(d):
    for k in ("X", "y", "cont"):
        if k in d:
            d[k] = d[k][:1]


def bad_data(P):
    """name -> edit of a well-formed data entry that makes it malformed"""
    v = {"nan feature": _x(NAN), "infinite feature": _x(INF), "one target missing": _cut("y"), "one target too many": _add("y"),
         "one-dimensional features": _flat, "no rows": _empty, "one row": _one, "no targets": _edit(ykind="none")}
    if P.ykind == "int":
        v["negative label"] = _cell("y", None, -1)
    elif P.ykind == "float" and P.task not in ("instance-cost-sensitive", "prescriptive-policy"):
        v["nan target"] = _cell("y", None, NAN)
        v["infinite target"] = _cell("y", None, INF)
    if P.task == "survival-analysis":
        v["negative time"] = lambda d: d["y"].__setitem__(0, [1, -1.0])
        v["nan time"] = lambda d: d["y"].__setitem__(0, [1, NAN])
        v["plain targets"] = lambda d: d.update(ykind="float", y=[t for _, t in d["y"]])
    if P.task == "instance-cost-sensitive":
        v["nan cost"] = _cell("y", 0, NAN)
        v["one-dimensional costs"] = lambda d: d.update(y=[r[0] for r in d["y"]])
    if P.task == "prescriptive-policy":
        v["nan outcome"] = _cell("y", 1, NAN)
        v["negative treatment"] = _cell("y", 0, -1)
        v["treatments only"] = lambda d: d.update(y=[r[:1] for r in d["y"]])
    if P.task == "cost-sensitive":
        v["small cost matrix"] = lambda d: d["costs"].update(matrix=[[0.0]])
        v["ragged cost matrix"] = lambda d: d["costs"]["matrix"].__setitem__(0, [0.0])
        v["no cost matrix"] = lambda d: d["costs"].update(matrix=[])
        v["no feature costs"] = lambda d: d["costs"].update(features=[])
        v["feature costs missing"] = lambda d: d["costs"]["features"].__setitem__(-1, d["costs"]["features"][-1][:4] + [len(d["X"][0]) - 2]) \
            if d["costs"]["features"][-1][3] <= len(d["X"][0]) - 2 else d["costs"]["features"].pop()
        v["incomplete cost file"] = lambda d: d["costs"].update(file=True, cut=1)
        v["cost file without features"] = lambda d: d["costs"].update(file=True, features=[])
        v["negative range"] = lambda d: d["costs"]["features"].__setitem__(0, d["costs"]["features"][0][:3] + [-2, d["costs"]["features"][0][4]])
    if P.cls in ("STreeDClassifier", "STreeDRegressor"):
        v["extra data"] = lambda d: d.update(extra=[[0.0] for _ in d["X"]])
    if "cont" in P.datum([0]):
        v["nan regressor"] = _cell("cont", 0, NAN)
        v["one regressor row missing"] = _cut("cont")
        v["one regressor row too many"] = _add("cont")
    return v


def bad_params(P):
    """(parameter, value out of range, value to go back to)"""
    v = [("max_depth", -1, 2), ("max_depth", 21, 2), ("max_depth", 1.5, 2), ("max_num_nodes", -1, None), ("max_num_nodes", 2 ** 20, None),
         ("min_leaf_node_size", 0, 2), ("min_leaf_node_size", -3, 2), ("time_limit", 0, 600), ("time_limit", -1, 600), ("time_limit", NAN, 600),
         ("random_seed", -2, 27)]
    c = P.cls
    if c != "STreeDCostSensitiveClassifier":
        v += [("n_thresholds", 0, 5), ("n_categories", 1, 5), ("continuous_binarize_strategy", "bogus", "quantile")]
    if "optimization_task" in P.base_kw:
        v += [("optimization_task", "bogus", P.base_kw["optimization_task"]), ("optimization_task", None, P.base_kw["optimization_task"]),
              ("optimization_task", "survival-analysis", P.base_kw["optimization_task"])]
    if c == "STreeDGroupFairnessClassifier":
        v += [("discrimination_limit", -0.1, 0.5), ("discrimination_limit", 1.5, 0.5)]
    else:
        v += [("upper_bound", -1, 2 ** 31 - 1), ("upper_bound", NAN, 2 ** 31 - 1)]
    if c in ("STreeDClassifier", "STreeDRegressor", "STreeDPiecewiseLinearRegressor"):
        v += [("cost_complexity", -0.5, P.base_kw.get("cost_complexity", 0.01)), ("cost_complexity", 1.5, P.base_kw.get("cost_complexity", 0.01))]
    if c == "STreeDPiecewiseLinearRegressor":
        v += [("lasso_penalty", -1, 0.0), ("ridge_penalty", -1, 0.0)]
    if c == "STreeDPrescriptivePolicyGenerator":
        v += [("teacher_method", "bogus", P.method)]
    if c == "STreeDRegressor":
        v += [("regression_lower_bound", "bogus", "kmeans")]
    if P.gini_ok and c != "STreeDCostSensitiveClassifier":
        v += [("feature_ordering", "bogus", "gini")]
    return v


def bad_uses(P):
    v = {"one feature missing": lambda d: d.update(X=[r[:-1] for r in d["X"]]),
         "one feature too many": lambda d: d.update(X=[r + [0] for r in d["X"]]),
         "nan feature": _x(NAN), "one-dimensional features": _flat, "no rows": _empty}
    if "cont" in P.datum([0]):
        v["nan regressor"] = _cell("cont", 0, NAN)
        v["one regressor row missing"] = _cut("cont")
        v["one regressor too many"] = lambda d: d.update(cont=[r + [0.0] for r in d["cont"]])
        v["no regressors"] = lambda d: d.update(cont=[[] for r in d["cont"]])
    return v


def bad_evals(P):
    v = dict(bad_uses(P))
    v["one target missing"] = _cut("y")
    v["one target too many"] = _add("y")
    if P.ykind == "int":
        v["negative label"] = _cell("y", None, -1)
    if P.cls in ("STreeDClassifier", "STreeDRegressor"):
        v["extra data"] = lambda d: d.update(extra=[[0.0] for _ in d["X"]])
    if P.task == "cost-sensitive":
        v["unknown label"] = _cell("y", None, 7)
    return v


def spoil(P, edit, ix=None):
    d = copy.deepcopy(P.datum(ix))
    edit(d)
    return d


# ---------------------------------------------------------------- replay
def seen(r, kind):
    if not isinstance(r, dict):
        return "crash"
    if "exc" in r:
        return "notfitted" if "NotFittedError" in r["mro"] else "exception"
    if kind == "fit" and not r["feas"]:
        return "infeasible" if r.get("warned") else "silent"
    return "ok"


class Session:
    """one behaviour on problems Pa, Pb of the same estimator"""

    def __init__(self, rng, key, task, hist, badp=None, badd=None, **pk):
        self.rng, self.key, self.hist = rng, key, hist
        self.badd = badd            # the malformed input to use instead of random ones
        T = tasks.TASKS[task]
        self.ml = 4
        n = [int(v) for v in rng.choice([16, 16, 24, 40], size=2)]
        mates = [t for t in tasks.TASKS.values() if t.cls == T.cls]     # one estimator may change its task
        Tb = mates[int(rng.integers(0, len(mates)))] if rng.random() < .5 else T
        self.P = {"a": T(rng, n=n[0], hold=0.3, **pk), "b": Tb(rng, n=n[1], hold=0.3, **pk)}
        P = self.P["a"]
        self.cfgs = {0: None}
        free = all(p.free_nodes for p in self.P.values())
        for c in (1, 2, 3):
            d, k = random_limits(rng, P, [1, 2, 2, 3])
            self.cfgs[c] = (d, k if free else None, random_opts(rng, P, plain=0))
        bp = [b for b in bad_params(P) if b[0] != "optimization_task"]   # constructors reject it, too
        self.badp = badp or bp[int(rng.integers(0, len(bp)))]
        self.bads = []
        self.data = {}
        for n, p in self.P.items():
            self.data[n] = p.datum()
            self.data[n + "t"] = p.datum(range(p.N))
        self.data["inf"] = P.datum(P.few())         # fewer rows than a leaf needs
        self.steps, self.plan = [], []
        self.build()

    def kw(self, c, p):
        if c == 0:
            d, k, opts = self.cfgs[1]
            return {**p.kw(d, k, self.ml, opts), self.badp[0]: self.badp[1]}
        d, k, opts = self.cfgs[c]
        kw = p.kw(d, k, self.ml, opts)
        kw.setdefault("max_num_nodes", None)
        kw.setdefault(self.badp[0], self.badp[2])
        return kw

    def pick(self, d):
        if self.badd:
            return self.badd
        names = sorted(d)
        return names[int(self.rng.integers(0, len(names)))]

    def add(self, h, **step):
        self.steps.append(step)
        self.plan.append((h, len(self.steps) - 1))

    def build(self):
        rng, P = self.rng, self.P["a"]
        for n in self.data:
            self.steps.append({"op": "snap", "d": n})
        for e in (1, 2):
            self.steps.append({"op": "new", "e": e, "cls": P.cls, "kw": self.kw(1, P)})
        for h in self.hist:
            op, e = h["op"], h["e"]
            if op == "set":
                kw = self.kw(h["c"], P)
                if "sensitive_feature" in kw and rng.random() < .5:     # of no concern to the fitted tree
                    kw["sensitive_feature"] = int(rng.integers(0, P.F))
                self.add(h, op="set", e=e, kw=kw)
            elif op == "clone":
                self.add(h, op="clone", e=e, of=h["of"])
            elif op == "fit":
                p = self.P.get(h["d"], P)
                d = h["d"]
                if d == "bad":
                    v = bad_data(P)
                    k = self.pick(v)
                    d = "bad%d" % len(self.steps)
                    self.data[d] = spoil(P, v[k])
                    self.bads.append(k)
                self.steps.append({"op": "set", "e": e, "kw": self.kw(h["c"], p)})
                self.add(h, op="fit", e=e, d=d)
            elif op in ("badpred", "badeval"):
                p = self.P.get(h["d"], P)
                v = bad_uses(p) if op == "badpred" else bad_evals(p)
                k = self.pick(v)
                d = "bad%d" % len(self.steps)
                self.data[d] = spoil(p, v[k])
                self.bads.append(op + " " + k)
                self.add(h, op="predict" if op == "badpred" else "eval", e=e, d=d)
            elif op == "info":
                self.add(h, op="exports", e=e)
            else:
                p = self.P.get(h["d"], P)
                m = int(rng.choice([1, 1, 2, 3, p.N, p.N + 3]))
                ix = [int(v) for v in rng.integers(0, p.N, size=m)]
                ix = p.scorable(ix) if op == "eval" else ix
                s = {"op": "predict" if op == "pred" else "eval", "e": e, "d": (h["d"] if h["d"] in self.P else "a") + "t", "rows": ix}
                if op == "pred" and rng.random() < 0.3:
                    s["dtype"] = str(rng.choice(["int8", "float64", "bool", "int32"]))
                self.add({**h, "ix": ix}, **s)
        for n in list(self.data):
            if not n.startswith("bad"):
                self.add({"op": "same", "d": n}, op="same", d=n)
        self.item = {"id": self.key, "data": self.data, "steps": self.steps}

    def events(self, res):
        D = max(c[0] for c in self.cfgs.values() if c)
        g = [{"ev": "begin", "id": self.key + "/begin", "D": D, "probs": {n: p.record(p.eff_ml(self.ml)) for n, p in self.P.items()}}]
        if isinstance(res, dict):
            return g + [{"ev": "died", "id": self.key + "/died"}]
        cur = {1: None, 2: None}
        for j, (h, at) in enumerate(self.plan):
            r = res[at]
            eid = "%s/%d" % (self.key, j)
            ev = {"ev": h["op"], "id": eid}
            if h["op"] == "same":
                g.append({**ev, "same": int(r.get("same", False))})
                continue
            kind, e = h["op"], h["e"]
            ev.update(e=e, seen=seen(r, kind))
            if kind == "fit":
                ev.update(ds=h["d"], c=h["c"])
                cur[e] = None
                if ev["seen"] == "ok" and h["d"] in self.P and h["c"]:
                    d, k, _ = self.cfgs[h["c"]]
                    f = self.P[h["d"]].fit_event(eid, d, k, r)
                    f.pop("ev")
                    ev.update(f)
                    cur[e] = (self.P[h["d"]], r["tree"])
            elif kind == "set":
                ev["c"] = h["c"]
            elif kind == "clone":
                ev["of"] = h["of"]
                cur[e] = None
            elif kind in ("pred", "eval", "info") and ev["seen"] == "ok" and cur[e]:
                p, t = cur[e]
                if kind == "info":
                    ev.update(tree=p.tree(r["tree"]), lea=r["leaves"], dep=r["depth"])
                else:
                    x = (p.pred_event if kind == "pred" else p.eval_event)(eid, h["ix"], r, t)
                    x.pop("ev")
                    ev.update(x)
            g.append(ev)
        return g

    def scenario(self):
        return Scenario(self.key, self.item, self.events,
                        lambda: {"task": self.P["a"].task, "other": self.P["b"].task, "calls": self.hist, "configs": self.cfgs, "bad": self.badp, "malformed": self.bads, "ml": self.ml})


def sessions(ctx, task_names, count, steps, clauses, salt=0):
    rng = ctx.rng(77, salt)
    hs = behaviours(ctx.seed + 31 * salt, count, steps)
    scen = [Session(rng, "q%d-%d" % (salt, i), task_names[i % len(task_names)], h).scenario() for i, h in enumerate(hs)]
    return conform(ctx, scen, "SessionTrace", clauses)


def step(op, e=1, **kw):
    return {"op": op, "e": e, "d": "a", **kw}


def each_error(ctx, task_names, clauses, salt=0):
    """every malformed input and every parameter out of range once per estimator: a
    good fit, the error, use of the estimator, another good fit"""
    rng = ctx.rng(78, salt)
    scen = []
    use = [step("pred"), step("eval"), step("info")]

    def add(task, what, hist, **kw):
        key = "-".join(["x%d" % salt, task, what] + [str(v).replace(" ", "_") for v in kw.values()])
        scen.append(Session(rng, key, task, hist, **kw).scenario())
    good = [step("fit", c=1)] + use
    for task in task_names:
        P = tasks.TASKS[task](rng, n=12)
        for k in bad_data(P):
            add(task, "fit", [step("fit", d="bad", c=1)] + good + [step("fit", d="bad", c=1)] + use + good, badd=k)
        for b in bad_params(P):
            add(task, "set", [step("set", c=0), step("fit", c=0)] + use + [step("set", c=1)] + good + [step("set", c=0), step("fit", c=0), step("set", c=1)] + use + good, badp=b)
        for op, vs in (("badpred", bad_uses(P)), ("badeval", bad_evals(P))):
            for k in vs:
                add(task, op, [step(op)] + good + [step(op)] + use + [step(op), step("fit", d="b", c=1), step("pred", d="b")], badd=k)
    return conform(ctx, scen, "SessionTrace", clauses)


def after_changes(ctx, task_names, count, clauses, salt=0):
    """use of fitted estimators whose parameters changed since the fit"""
    rng = ctx.rng(79, salt)
    use = [step("pred"), step("eval"), step("info")]
    hist = [step("fit", c=1), step("set", c=2)] + use + [step("set", c=0)] + use + [step("set", c=3), step("fit", d="b", c=3), step("set", c=1)] \
        + [{**u, "d": "b"} for u in use] + [step("fit", c=1), step("set", c=2)] + use
    scen = [Session(rng, "c%d-%d" % (salt, i), task_names[i % len(task_names)], hist).scenario() for i in range(count)]
    return conform(ctx, scen, "SessionTrace", clauses)
