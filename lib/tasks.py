"""Training problems: random generation, the estimator call that fits them, and
the same problem as the record the TLA+ modules use."""
import math
from fractions import Fraction

import numpy as np

OPTIONS = ["use_branch_caching", "use_dataset_caching", "use_terminal_solver", "use_similarity_lower_bound",
           "use_upper_bound", "use_lower_bound"]


# the solver compares costs that are doubles up to a relative difference of 1/10000
REAL_COSTS = {"cost-complex-accuracy", "cost-sensitive", "instance-cost-sensitive", "prescriptive-policy"}


def fx(v, scale):
    """fixed point; values that are not finite map to a number no spec value equals"""
    if isinstance(v, str) or v is None or not math.isfinite(v):
        return 2000000011
    r = int(math.floor(v * scale + 0.5))
    return max(-2000000000, min(2000000000, r))


def gen_x(rng, n, F, near=False):
    """n feature vectors; sometimes with repeated, complemented or constant
    columns, or with columns that differ in a few rows only"""
    style = rng.integers(0, 6)
    if style == 0:
        X = (rng.random((n, F)) < rng.choice([0.2, 0.5, 0.8], size=F)).astype(int)
    elif style == 1:     # few distinct patterns
        pats = rng.integers(0, 2, size=(max(2, int(rng.integers(2, 7))), F))
        X = pats[rng.integers(0, len(pats), size=n)]
    else:
        X = rng.integers(0, 2, size=(n, F))
    if F >= 3 and rng.random() < 0.25:
        i, j = rng.choice(F, 2, replace=False)
        kind = rng.integers(0, 4)
        if kind == 0:
            X[:, i] = X[:, j]
        elif kind == 1:
            X[:, i] = 1 - X[:, j]
        elif kind == 2:
            X[:, i] = rng.integers(0, 2)
        else:
            X[:, i] = X[:, j] & X[:, (j + 1) % F]
    for _ in range(int(rng.integers(1, F)) if near and F > 1 else 0):
        i, j = rng.choice(F, 2, replace=False)
        k = rng.choice(n, size=min(n, int(rng.integers(1, 4))), replace=False)
        X[:, i] = X[:, j]
        X[k, i] = 1 - X[k, i]
    return X


def gen_signal(rng, X, levels):
    """a target level per row: a hidden tree or parity, plus noise"""
    n, F = X.shape
    kind = rng.integers(0, 4)
    if kind == 0:
        y = rng.integers(0, levels, size=n)
    elif kind == 1:
        fs = rng.choice(F, size=min(F, int(rng.integers(1, 4))), replace=False)
        y = X[:, fs].sum(axis=1) % levels
    else:
        y = np.zeros(n, dtype=int)

        def rec(ix, d):
            if d == 0 or len(ix) < 2 or rng.random() < 0.15:
                y[ix] = rng.integers(0, levels)
                return
            f = rng.integers(0, F)
            rec(ix[X[ix, f] == 0], d - 1)
            rec(ix[X[ix, f] == 1], d - 1)
        rec(np.arange(n), int(rng.integers(1, 4)))
    noise = rng.choice([0.0, 0.1, 0.3])
    flip = rng.random(n) < noise
    y = y.copy()
    y[flip] = rng.integers(0, levels, size=int(flip.sum()))
    return y


class Problem:
    """One training set for one task.  rows(ix) gives the aggregated rows of the
    spec; label/score scaling and evaluation data are task specific."""
    task = None
    cls = "STreeDClassifier"
    S = 10000           # scale of scores
    V = 1               # scale of labels and predictions
    free_nodes = True   # max_num_nodes may be chosen
    gini_ok = True
    options = OPTIONS
    pareto = False

    def __init__(self, rng, n=None, F=None, K=None, hold=0, near=False):
        self.rng = rng
        self.F = F or int(rng.integers(2, 6))
        self.n = n or int(rng.choice([2, 3, 5, 8, 12, 20, 40, 60]))
        self.X = gen_x(rng, self.n, self.F, near)
        self.base_kw = {}
        self.make(K)
        self.N = self.n                 # rows n..N-1 are not trained on
        m = int(self.n * (1 - hold))
        if hold and m >= 4 and self.trainable(m):
            self.n = m
        self.derive()

    def trainable(self, m):
        """may the first m rows be the training set?"""
        y = getattr(self, "y", None)
        return y is None or self.ykind != "int" or set(y[:m]) == set(y)

    def few(self):
        """three rows that form a valid training set"""
        return [0, 1, 2]

    def derive(self):
        """values computed from the training rows"""

    def scorable(self, ix):
        """the rows, extended by what evaluation data must contain"""
        return ix

    # -- interface --
    def make(self, K):
        raise NotImplementedError

    def stats(self, i):
        raise NotImplementedError

    def width(self):
        raise NotImplementedError

    def datum(self, ix=None):
        """the data entry for the worker"""
        ix = range(self.n) if ix is None else ix
        return {"X": [[int(v) for v in self.X[i]] for i in ix], "y": self.yval(ix), "ykind": self.ykind}

    ykind = "int"

    def yval(self, ix):
        return [int(self.y[i]) for i in ix]

    def rows(self, ix=None):
        ix = range(self.n) if ix is None else ix
        acc = {}
        for i in ix:
            x = tuple(int(v) for v in self.X[i])
            a = acc.setdefault(x, [0, [0] * self.width()])
            a[0] += 1
            a[1] = [u + v for u, v in zip(a[1], self.stats(i))]
        return [{"x": list(x), "n": a[0], "s": a[1]} for x, a in sorted(acc.items())]

    def extra(self):
        return {}

    def record(self, ml, table=True):
        p = {"task": self.task, "F": self.F, "rows": self.rows(), "w": self.width(), "nl": self.width(), "ml": ml, "tol": 0, "rel": 0,
             "S": self.S, "V": self.V}
        p.update(self.extra() if table else self.extra_free())
        if self.task in REAL_COSTS and self.n > 100:
            p["rel"] = 3000
        return p

    def extra_free(self):
        """the parameters without tables over all branches"""
        return self.extra()

    def cost_tree(self, raw_tree):
        """the tree with the costs of its leaves, for objectives given by tables"""
        return [0]

    def shuffled(self, rng, rows):
        """data with permuted rows and columns, the original column of each
        feature of the tree, and parameters that must change with them"""
        cols = [int(c) for c in rng.permutation(self.F)]
        d = self.datum(rows)
        d["X"] = [[r[c] for c in cols] for r in d["X"]]
        return d, cols, {}

    def kw(self, d, k, ml, opts):
        kw = dict(self.base_kw)
        kw.update(opts)
        kw["max_depth"] = d
        if k is not None:
            kw["max_num_nodes"] = k
        kw["min_leaf_node_size"] = ml
        return kw

    def eff_ml(self, ml):
        return ml

    def lab(self, v):
        return int(v)

    def tree(self, t):
        if len(t) == 1:
            return [self.lab(t[0])]
        return [t[0], self.tree(t[1]), self.tree(t[2])]

    def fit_extra(self, raw_tree):
        return {}

    def eval_extra(self, ix, raw_tree):
        return {}

    def score_fx(self, v):
        return fx(v, self.S)

    def pred_tab(self, ix, raw_tree):
        return []

    # -- events --
    def problem_event(self, pid, ml, D, table=True):
        return {"ev": "problem", "id": pid, "p": self.record(ml, table), "D": D}

    def fit_event(self, eid, d, k, r, ub=-1):
        e = {"ev": "fit", "id": eid, "d": d, "k": 2 ** d - 1 if k is None else min(k, 2 ** d - 1), "ub": ub}
        if not isinstance(r, dict) or "died" in r or "exc" in r:
            e["res"] = "err"
            return e
        if not r["feas"]:
            e["res"] = "inf"
            return e
        e.update(res="ok", opt=int(r["opt"]), tree=self.tree(r["tree"]), dep=r["depth"], nod=r["nodes"],
                 lea=r.get("leaves", r["nodes"] + 1), hs=1, score=self.score_fx(r["score"]), ql=fx(r["ql"], 10000))
        if "gdepth" in r and r["gdepth"] != r["depth"]:
            e["dep"] = -1
        e.update(self.fit_extra(r["tree"]))
        return e

    def pred_event(self, eid, ix, r, raw_tree):
        if "exc" in r or "died" in r:
            return {"ev": "pred", "id": eid, "res": "err"}
        return {"ev": "pred", "id": eid, "res": "ok", "xs": [[int(v) for v in self.X[i]] for i in ix],
                "out": [fx(v, self.V) if self.V != 1 else (int(v) if float(v).is_integer() else -999) for v in r["out"]],
                "tab": self.pred_tab(ix, raw_tree)}

    def eval_event(self, eid, ix, r, raw_tree):
        if "exc" in r or "died" in r:
            return {"ev": "eval", "id": eid, "res": "err"}
        e = {"ev": "eval", "id": eid, "res": "ok", "rows": self.rows(ix), "hs": 1, "score": self.score_fx(r["score"]), "ql": fx(r["ql"], 10000)}
        e.update(self.eval_extra(ix, raw_tree))
        return e


def onehot(v, K):
    return [1 if v == k else 0 for k in range(K)]


class Accuracy(Problem):
    task = "accuracy"
    options = OPTIONS + ["all_trees", "use_task_lower_bound"]

    def make(self, K):
        self.K = K or int(self.rng.choice([2, 2, 2, 3, 4]))
        self.y = gen_signal(self.rng, self.X, self.K)
        self.K = max(2, int(self.y.max()) + 1)
        self.base_kw = {"optimization_task": self.task}

    def width(self):
        return self.K

    def stats(self, i):
        return onehot(self.y[i], self.K)


class CostComplexAccuracy(Accuracy):
    task = "cost-complex-accuracy"
    free_nodes = False

    def make(self, K):
        super().make(K)
        self.num, self.den = [(1, 100), (1, 20), (1, 50), (3, 100), (1, 10), (1, 1000), (0, 1), (1, 8), (1, 4), (1, 32)][int(self.rng.integers(0, 10))]
        self.base_kw["cost_complexity"] = self.num / self.den

    def extra(self):
        return {"q": self.den, "bc": self.num * self.n}


class F1(Accuracy):
    task = "f1-score"
    pareto = True

    def make(self, K):
        super().make(2)
        if self.y.min() == self.y.max():     # both classes occur
            self.y[0] = 1 - self.y[0]
        if self.rng.random() < 0.05:         # or, at times, only one
            self.y[:] = int(self.rng.integers(0, 2))
        self.K = 2


class Fair(Accuracy):
    cls = "STreeDGroupFairnessClassifier"
    options = [o for o in OPTIONS if o != "use_dataset_caching"]
    pareto = True

    def make(self, K):
        super().make(2)
        self.K = 2
        if self.n < 4:
            self.n = 4
            self.X = self.rng.integers(0, 2, size=(4, self.F))
            self.y = self.rng.integers(0, 2, size=4)
        g = self.X[:, 0]
        g[:4] = [0, 0, 1, 1]              # both groups, with both labels
        self.y[:4] = [0, 1, 0, 1]
        u = self.rng.random()
        if u < 0.05:                      # a group may be absent
            g[:] = int(self.rng.integers(0, 2))
        elif u < 0.1:                     # or never have the label
            self.y[g == int(self.rng.integers(0, 2))] = 0
        elif u < 0.13:                    # or no instance has
            self.y[:] = 0
        lims = [(1, 97), (1, 13), (7, 101), (1, 5), (13, 31), (1, 1), (0, 1), (1, 100), (1, 10)]
        self.ln, self.lq = lims[int(self.rng.integers(0, len(lims)))]
        self.base_kw = {"optimization_task": self.task, "sensitive_feature": 0, "discrimination_limit": self.ln / self.lq}

    def width(self):
        return 4

    def stats(self, i):
        return onehot(2 * int(self.X[i][0]) + int(self.y[i]), 4)

    def extra(self):
        return {"ln": self.ln, "lq": self.lq, "nl": 2}

    def shuffled(self, rng, rows):
        d, cols, _ = super().shuffled(rng, rows)
        at = cols.index(0)          # the sensitive column is moved to the front
        return d, [0] + cols[:at] + cols[at + 1:], {"sensitive_feature": at}


class GroupFair(Fair):
    task = "group-fairness"


class EqOpp(Fair):
    task = "equality-of-opportunity"


class CostSensitive(Problem):
    task = "cost-sensitive"
    cls = "STreeDCostSensitiveClassifier"
    options = ["use_branch_caching", "use_terminal_solver", "use_upper_bound", "use_lower_bound"]

    def make(self, K):
        if self.F >= 3 and self.rng.random() < .3:      # one question asked by two tests of different costs
            i, j = self.rng.choice(self.F, 2, replace=False)
            self.X[:, i] = self.X[:, j] if self.rng.random() < .6 else 1 - self.X[:, j]
        self.K = K or int(self.rng.choice([2, 2, 3]))
        self.y = gen_signal(self.rng, self.X, self.K)
        self.y[:2] = [0, self.K - 1] if self.n >= 2 else self.y[:2]
        dear = self.rng.random() < 0.5      # mistakes outweigh tests: deep paths pay off
        self.m = self.rng.integers(1, 9, size=(self.K, self.K)) * (int(self.rng.choice([4, 9])) if dear else 1)
        np.fill_diagonal(self.m, 0)
        # consecutive features may come from one original feature; groups span originals
        self.feat = []
        f, o = 0, 0
        while f < self.F:
            e = min(self.F - 1, f + int(self.rng.choice([0, 0, 1, 2])))
            cost = int(self.rng.choice([0, 1, 2, 3] if not dear else [2, 3, 5, 7]))
            disc = int(self.rng.integers(0, cost + 1))
            grp = str(self.rng.choice(["a", "b", "own%d" % o] if not dear else ["a", "a", "b"]))
            self.feat.append([cost, disc, grp, f, e])
            f, o = e + 1, o + 1
        self.div = int(self.rng.choice([1, 1, 4]))   # real costs are integers / div
        self.total = self._total()

    def _total(self):
        seen, tot = set(), 0
        for c, d, g, b, e in self.feat:
            tot += d if g in seen else c
            seen.add(g)
        return tot

    def width(self):
        return self.K

    def stats(self, i):
        return onehot(self.y[i], self.K)

    def extra(self):
        fc = []
        groups = {}
        for o, (c, d, g, b, e) in enumerate(self.feat):
            groups.setdefault(g, len(groups))
            for f in range(b, e + 1):
                fc.append({"cost": c, "disc": d, "base": o, "group": groups[g]})
        return {"m": [[int(v) for v in r] for r in self.m], "fc": fc}

    def datum(self, ix=None):
        d = super().datum(ix)
        d["costs"] = {"matrix": [[int(v) / self.div for v in r] for r in self.m],
                      "features": [[c / self.div, dd / self.div, g, b, e] for c, dd, g, b, e in self.feat],
                      "file": bool(int(self.m.sum()) % 3 == 0)}       # given as a file
        return d

    def shuffled(self, rng, rows):
        d = self.datum(rows)
        cols, feats = [], []
        for i in rng.permutation(len(self.feat)):     # the columns of one original feature stay together
            c, dd, g, b, e = self.feat[int(i)]
            feats.append([c / self.div, dd / self.div, g, len(cols), len(cols) + e - b])
            cols += [b + int(v) for v in rng.permutation(e - b + 1)]
        d["X"] = [[r[c] for c in cols] for r in d["X"]]
        d["costs"]["features"] = feats
        return d, cols, {}

    def _norm(self, ix):
        ys = [int(self.y[i]) for i in ix]
        n = len(ys)
        big = max(ys.count(k) for k in range(self.K))
        # score = value / (n * (total + (1 - big/n) * maxm)) = value / (n*total + (n-big)*maxm)
        return {"norm": n * self.total + (n - big) * int(self.m.max()), "slack": 2}

    def fit_extra(self, raw_tree):
        return self._norm(range(self.n))

    def eval_extra(self, ix, raw_tree):
        return self._norm(ix)


class InstanceCost(Problem):
    task = "instance-cost-sensitive"
    cls = "STreeDInstanceCostSensitiveClassifier"
    ykind = "float"

    def make(self, K):
        self.K = K or int(self.rng.choice([2, 3, 3, 4]))
        sig = gen_signal(self.rng, self.X, self.K)
        self.c = self.rng.integers(0, 8, size=(self.n, self.K))
        mode = self.rng.integers(0, 3)
        for i in range(self.n):
            if mode == 0:
                self.c[i, sig[i]] = 0
            elif mode == 1:
                self.c[i, sig[i]] = max(0, self.c[i].min() - 1)
        self.div = int(self.rng.choice([1, 1, 8]))
        self.argmin = self.c.argmin(axis=1)
        self.S = 1000

    def width(self):
        return self.K

    def stats(self, i):
        return [int(v) for v in self.c[i]]

    def yval(self, ix):
        return [[int(v) / self.div for v in self.c[i]] for i in ix]

    def extra(self):
        return {"C": self.div}


class Policy(Problem):
    task = "prescriptive-policy"
    cls = "STreeDPrescriptivePolicyGenerator"
    ykind = "float"

    def make(self, K):
        r = self.rng
        self.K = K or int(r.choice([2, 2, 3]))
        self.k = r.integers(0, self.K, size=self.n)
        m = min(self.n, self.K)
        self.k[:m] = np.arange(m)
        if self.n < self.K:
            self.K = max(2, self.n)
            self.k = np.arange(self.n) % self.K
        self.outc = r.integers(-4, 9, size=self.n)                 # quarters
        self.mu = r.choice([1, 2, 4, 0], p=[.3, .4, .25, .05], size=self.n)  # 0: no propensity, else 1/mu
        if r.random() < .3:                                        # rare decisions
            self.mu[r.random(self.n) < .3] = int(r.choice([16, 64]))
        sig = gen_signal(r, self.X, self.K)
        self.yhat = r.integers(-4, 9, size=(self.n, self.K))
        for i in range(self.n):
            self.yhat[i, sig[i]] += int(r.integers(0, 6))
        self.kopt = r.integers(0, self.K, size=self.n)
        self.method = str(r.choice(["DM", "IPW", "DR"]))
        self.base_kw = {"teacher_method": self.method}
        self.top = max(-4, max(self.reward(i, l) for i in range(self.n) for l in range(self.K)))

    def extra(self):
        return {"rel": 3000} if self.mu.max() > 4 else {}

    def width(self):
        return self.K

    def reward(self, i, l):      # in quarters
        mu, own = int(self.mu[i]), l == self.k[i]
        yh, y = int(self.yhat[i, l]), int(self.outc[i])
        if self.method == "DM":
            return yh
        if mu == 0:
            return 0
        if self.method == "IPW":
            return y * mu if own else 0
        return yh + ((y - yh) * mu if own else 0)

    def stats(self, i):          # costs, non-negative; a constant per instance does not matter
        return [self.top - self.reward(i, l) for l in range(self.K)]

    def offset(self):
        """the solver counts costs from the best reward of any instance and label,
        or from -1 if all are less; in quarters of the costs above"""
        return self.top - max(-4, max(self.reward(i, l) for i in range(self.n) for l in range(self.K)))

    def yval(self, ix):
        return [[int(self.k[i]), int(self.outc[i]) / 4, 1 / int(self.mu[i]) if self.mu[i] else 0.0]
                + [int(v) / 4 for v in self.yhat[i]] + [int(self.kopt[i])] + [0.0] * self.K for i in ix]

    def rows(self, ix=None):
        rs = super().rows(ix)
        ix = range(self.n) if ix is None else ix
        for r in rs:
            r["o"] = [sum(1 for i in ix if list(self.X[i]) == r["x"] and self.kopt[i] == l) for l in range(self.K)]
        return rs


class Regression(Problem):
    task = "regression"
    cls = "STreeDRegressor"
    options = OPTIONS + ["use_task_lower_bound"]
    ykind = "float"
    gini_ok = False
    V = 10000

    def make(self, K):
        lv = int(self.rng.choice([2, 3, 8]))
        sig = gen_signal(self.rng, self.X, lv)
        scale = self.rng.integers(-8, 9, size=lv)
        self.y = scale[sig] + self.rng.integers(-1, 2, size=self.n) * int(self.rng.integers(0, 3))
        if self.rng.random() < .15:          # two values: large bounds on what an instance may cost
            self.y = np.where(sig % 2 == 1, 8, -8)
        self.div = int(self.rng.choice([1, 1, 4]))
        self.Kfx = 1000 if self.n <= 100 else 100
        self.base_kw = {"optimization_task": self.task, "regression_lower_bound": str(self.rng.choice(["kmeans", "equivalent"]))}

    def width(self):
        return 2

    def stats(self, i):
        y = int(self.y[i])
        return [y, y * y]

    def yval(self, ix):
        return [int(self.y[i]) / self.div for i in ix]

    def lab(self, v):
        return fx(v * self.div, self.V)

    def score_fx(self, v):
        return fx(v * self.div ** 2, self.Kfx)

    def pred_event(self, eid, ix, r, raw_tree):
        if "out" in r:
            r = {**r, "out": [v if isinstance(v, str) else v * self.div for v in r["out"]]}
        return super().pred_event(eid, ix, r, raw_tree)

    def sst(self):
        y = [int(v) for v in self.y[:self.n]]
        s, q = sum(y), sum(v * v for v in y)
        return Fraction(q) - Fraction(s * s, self.n)

    def extra(self):
        return {"K": self.Kfx, "tol": self.Kfx // 50, "rel": 5000}


class CostComplexRegression(Regression):
    task = "cost-complex-regression"
    free_nodes = False

    def make(self, K):
        super().make(K)
        self.num, self.den = [(1, 100), (1, 20), (3, 100), (1, 10), (1, 1000), (0, 1), (1, 4)][int(self.rng.integers(0, 7))]
        self.base_kw["cost_complexity"] = self.num / self.den

    def extra(self):
        e = super().extra()
        e["bc"] = int(round(self.sst() * self.num * self.Kfx / self.den))
        return e


class Table(Problem):
    """objectives whose leaf costs are real functions of the instances in the
    leaf: the cost of the best leaf of every branch is tabulated by branch code"""
    gini_ok = False
    Kfx = 1000

    def width(self):
        return 1

    def stats(self, i):
        return [0]

    def branches(self):
        """rows reaching every branch, in the order of the branch codes"""
        own = np.arange(self.N) < self.n
        cur = [own]
        for f in range(self.F):      # digit f has weight 3^f
            col = self.X[:, f].astype(bool)
            cur = [m & sel for sel in (~col, col, own) for m in cur]
        return cur

    def leaves(self, t):
        return [t[0]] if len(t) == 1 else self.leaves(t[1]) + self.leaves(t[2])

    def cost_tree(self, raw_tree):
        def rec(t, m):
            if len(t) == 1:
                return [min(10**9, fx(self.leaf_cost(t[0], np.nonzero(m)[0]), self.Kfx))]
            f = t[0] if 0 <= t[0] < self.F else 0
            s = self.X[:, f] == 1
            return [t[0], rec(t[1], m & ~s), rec(t[2], m & s)]
        return rec(raw_tree, np.arange(self.N) < self.n)

    def row_loss(self, ix, raw_tree):
        """loss[i][j] of the i-th aggregated row in the j-th leaf, in units of 1/S"""
        acc = {}
        for i in ix:
            acc.setdefault(tuple(int(v) for v in self.X[i]), []).append(i)
        ls = self.leaves(raw_tree)
        return [[min(10**7, fx(sum(self.loss(i, l) for i in g), self.S)) for l in ls] for _, g in sorted(acc.items())]

    def score_fx(self, v):
        return max(-10**7, min(10**7, super().score_fx(v)))

    def fit_extra(self, raw_tree):
        return {"loss": self.row_loss(range(self.n), raw_tree)}

    def eval_extra(self, ix, raw_tree):
        return {"loss": self.row_loss(ix, raw_tree)}

    def pred_tab(self, ix, raw_tree):
        ls = self.leaves(raw_tree)
        return [[max(-2 * 10**9, min(2 * 10**9, fx(self.value(i, l), self.V))) for l in ls] for i in ix]


class Survival(Table):
    task = "survival-analysis"
    cls = "STreeDSurvivalAnalysis"
    ykind = "surv"
    S = 10000
    V = 10000
    options = [o for o in OPTIONS if o != "use_similarity_lower_bound"]
    gini_ok = False

    def make(self, K):
        r = self.rng
        sig = gen_signal(r, self.X, 4)
        self.t = (1 + r.geometric(1 / (2.0 + 3 * sig))).astype(float) / int(r.choice([1, 2]))
        self.t = np.minimum(self.t, r.choice([6, 12, 30]))
        self.e = (r.random(self.n) < r.choice([0.3, 0.6, 0.9, 1.0])).astype(int)
        if self.e.sum() == 0:          # scores need an event
            self.e[0] = 1

    def trainable(self, m):
        return self.e[:m].sum() > 0

    def few(self):
        return [int(np.argmax(self.e[:self.n])), 0, 1]

    def scorable(self, ix):
        return ix if any(self.e[i] for i in ix) else ix + [int(np.argmax(self.e))]

    def derive(self):
        t_, e_ = self.t[:self.n], self.e[:self.n]
        at, tot, keys = self.n, 0.0, [(0.0, 1.0 / (self.n + 1))]
        for t in sorted(set(t_)):
            d = int(e_[t_ == t].sum())
            tot += d / at
            at -= int((t_ == t).sum())
            if d:
                keys.append((t, tot))
        self.keys = keys
        self.H = np.array([self.base(t) for t in self.t])
        self.risk = sum(self.base(t) for t in set(t_) if e_[t_ == t].sum())

    def base(self, t):
        return [h for k, h in self.keys if k <= t + 1e-6][-1]

    def theta(self, m):
        return max(0.5, float(self.e[m].sum())) / float(self.H[m].sum())

    def yval(self, ix):
        return [[int(self.e[i]), float(self.t[i])] for i in ix]

    def lab(self, v):
        return fx(v, self.V)

    def extra(self):
        leaf, val = [], []
        for m in self.branches():
            if not m.any():
                leaf.append(0)
                val.append(0)
                continue
            leaf.append(fx(self.search_cost(m), self.Kfx))
            val.append(fx(self.theta(m), self.V))
        return {"leaf": leaf, "val": val, **self.extra_free()}

    def extra_free(self):
        return {"K": self.Kfx, "tol": 10, "rel": 5000}

    def search_cost(self, m):
        ev = int(self.e[m].sum())
        return max(0.0, 0.0 if ev == 0 else float(-np.log(self.H[m & (self.e == 1)]).sum() - ev * math.log(self.theta(m))))

    def leaf_cost(self, l, ix):
        m = np.zeros(self.N, dtype=bool)
        m[ix] = True
        return self.search_cost(m) if len(ix) else 0.0

    def loss(self, i, th):
        x = th * self.H[i]
        return (x - 1 - math.log(x)) if self.e[i] else x

    def value(self, i, th):
        return th * self.risk

    def curves_event(self, eid, ix, kind, r):
        e = {"ev": "curves", "id": eid, "kind": kind, "res": "err"}
        if "exc" in r or "died" in r:
            return e
        t_, e_ = self.t[:self.n], self.e[:self.n]
        u = 30000 if kind == "survival" else 100000
        e.update(res="ok", xs=[[int(v) for v in self.X[i]] for i in ix], times=[fx(t, 2) for t in r["times"]],
                 out=[[max(-10**8, min(10**8, fx(v, u))) for v in c] for c in r["out"]],
                 hist=[{"t": int(2 * t), "died": int(e_[t_ == t].sum()), "gone": int((t_ == t).sum())} for t in sorted(set(t_))])
        return e


class Linear(Table):
    cls = "STreeDPiecewiseLinearRegressor"
    ykind = "float"
    options = ["use_branch_caching", "use_dataset_caching", "use_similarity_lower_bound", "use_upper_bound", "use_lower_bound"]
    simple = False
    S = 1000
    V = 1000
    tolfrac = 0

    def make(self, K):
        r = self.rng
        self.m = self.columns()
        if self.n < 10:
            self.n = int(r.choice([10, 16, 24]))
            self.X = gen_x(r, self.n, self.F)
        sig = gen_signal(r, self.X, 3)
        self.c = r.integers(-6, 7, size=(self.n, self.m)) / 2.0
        coef = r.integers(-3, 4, size=(3, self.m))
        off = r.integers(-5, 6, size=3)
        self.y = off[sig] + (coef[sig] * self.c).sum(axis=1) + r.choice([0, 0.5, 2.0]) * r.integers(-2, 3, size=self.n)
        kind = r.integers(0, 8)
        if kind == 0:
            self.y[:] = off[sig]                     # piecewise constant targets
        elif kind == 1:
            self.c[:, 0] = 1.5                       # a constant regressor
        cc = [0.01, 0.05, 0.001, 0.1, 0.0, 0.02][int(r.integers(0, 6))]
        self.cc = cc
        self.base_kw = {"simple": self.simple, "cost_complexity": cc}
        self.penalties()
        self.free_nodes = cc == 0

    @classmethod
    def restore(cls, rng, r):
        """a stored problem: one regressor, no penalties"""
        P = cls(rng, n=len(r["y"]), F=len(r["X"][0]))
        P.X = np.array([[int(v) for v in x] for x in r["X"]])
        P.y, P.c, P.m = np.array(r["y"]), np.array(r["c"]).reshape(-1, 1), 1
        P.n = P.N = len(P.y)
        P.cc, P.free_nodes = 0.0, True
        P.base_kw["cost_complexity"] = 0.0
        for v in ("lasso", "ridge"):
            setattr(P, v, 0.0)
            if v + "_penalty" in P.base_kw:
                P.base_kw[v + "_penalty"] = 0.0
        P.derive()
        return P

    def derive(self):
        self.std = self.c[:self.n].std(axis=0)

    def eff_ml(self, ml):
        return max(ml, 5 * (1 if self.simple else self.m))

    def yval(self, ix):
        return [float(self.y[i]) for i in ix]

    def datum(self, ix=None):
        d = super().datum(ix)
        ix = range(self.n) if ix is None else ix
        d["cont"] = [[float(v) for v in self.c[i]] for i in ix]
        return d

    def predict_one(self, i, l):
        try:
            return l["b0"] + sum(float(b) * float(c) for b, c in zip(l["b"], self.c[i]))
        except (TypeError, ValueError):
            return float("nan")

    def loss(self, i, l):
        v = self.predict_one(i, l)
        return (self.y[i] - v) ** 2 if math.isfinite(v) else 1e9

    value = predict_one

    def tree(self, t):
        """leaves become their cost: squared error plus penalties"""
        return self.cost_tree(t)

    def leaf_cost(self, l, ix):
        return sum(self.loss(i, l) for i in ix) + self.penalty(l, len(ix))

    def extra(self):
        leaf = [fx(self.best(np.nonzero(m)[0]), self.Kfx) if m.any() else 0 for m in self.branches()]
        return {"leaf": leaf, **self.extra_free()}

    def extra_free(self):
        y = self.y[:self.n]
        sst = float(((y - y.mean()) ** 2).sum())
        t = int(sst * self.Kfx * self.tolfrac)
        return {"K": self.Kfx, "tol": 20 + t, "ltol": 20 + t, "rel": 2000, "bc": fx(sst * self.cc, self.Kfx)}


class SimpleLinear(Linear):
    task = "simple-linear-regression"
    simple = True

    def columns(self):
        return int(self.rng.integers(1, 4))

    def penalties(self):
        self.ridge = float(self.rng.choice([0, 0, 0.5, 4, 40]))
        self.base_kw["lasso_penalty"] = self.ridge      # how the simple models name it

    def penalty(self, l, n):
        return self.ridge * max((float(b) ** 2 * s * s for b, s in zip(l["b"], self.std)), default=0.0)

    def best(self, ix):
        y, n = self.y[ix], len(ix)
        yc = y - y.mean()
        out = float((yc ** 2).sum())
        for j in range(self.m):
            x = self.c[ix, j] - self.c[ix, j].mean()
            den = float((x ** 2).sum()) + self.ridge * self.std[j] ** 2
            if den > 1e-9:
                out = min(out, float((yc ** 2).sum()) - float((x * yc).sum()) ** 2 / den)
        return max(0.0, out)

    def fit_extra(self, raw_tree):
        return {"hs": 1 if self.ridge == 0 else 0, **super().fit_extra(raw_tree)}

    def eval_extra(self, ix, raw_tree):
        return {"hs": 1 if self.ridge == 0 else 0, **super().eval_extra(ix, raw_tree)}


class PiecewiseLinear(Linear):
    task = "piecewise-linear-regression"

    def columns(self):
        m = int(self.rng.choice([1, 1, 2]))
        self.tolfrac = 0 if m == 1 else 0.004
        return m

    def penalties(self):
        self.lasso = float(self.rng.choice([0, 0, 0.05, 0.5, 2.0]))
        self.ridge = float(self.rng.choice([0, 0, 0.1, 1.0]))
        self.base_kw.update(lasso_penalty=self.lasso, ridge_penalty=self.ridge)

    def penalty(self, l, n):
        z = [float(b) * s for b, s in zip(l["b"], self.std)]
        return 2 * n * self.lasso * sum(abs(v) for v in z) + n * self.ridge * sum(v * v for v in z)

    def best(self, ix):
        n = len(ix)
        yc = self.y[ix] - self.y[ix].mean()
        s = np.where(self.std < 1e-6, 1.0, self.std)
        Z = self.c[ix] / s
        Z = Z - Z.mean(axis=0)
        G, v = Z.T @ Z, Z.T @ yc
        lam, gam = n * self.lasso, n * self.ridge
        b = [0.0] * self.m
        for _ in range(3000):
            move = 0.0
            for j in range(self.m):
                if G[j, j] < 1e-9:
                    continue
                u = v[j] - sum(G[j, k] * b[k] for k in range(self.m) if k != j)
                w = math.copysign(max(abs(u) - lam, 0.0), u) / (G[j, j] + gam)
                move = max(move, abs(w - b[j]))
                b[j] = w
            if move < 1e-9:
                break
        b = np.array(b)
        return max(0.0, float((yc ** 2).sum() - 2 * b @ v + b @ G @ b + 2 * lam * np.abs(b).sum() + gam * (b ** 2).sum()))


TASKS = {c.task: c for c in (Accuracy, CostComplexAccuracy, F1, GroupFair, EqOpp, CostSensitive, InstanceCost, Policy, Regression, CostComplexRegression, Survival,
                           SimpleLinear, PiecewiseLinear)}
