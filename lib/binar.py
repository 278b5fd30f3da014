"""Raw data: columns of binary, numeric and categorical values, binarised
directly and inside fits."""
import re
from fractions import Fraction

import numpy as np

from core import Scenario, conform

U = 27720
CATS = ["red", "o'brien", "dark blue", "x", "12", "Z z", "none?", "b"]
NAMES = ["alpha", "b c", "col_1", "col_10", "x<y", "f", "Feature 1", "age"]


class Raw:
    """columns of integers; a numeric value v stands for v / q of the data"""

    def __init__(self, rng, n, m, kinds, frame, num_max=12):
        self.rng, self.n, self.m, self.frame = rng, n, m, frame
        self.cols = []
        names = [str(v) for v in rng.permutation(NAMES)]
        for j, kind in enumerate(kinds):
            c = {"kind": kind, "name": names[j], "q": 1, "dtype": "int64"}
            if kind == "bin":
                c["v"] = self.draw(lambda k: rng.integers(0, 2, size=k))
                c["dtype"] = str(rng.choice(["int64", "int64", "float64", "bool", "int8"]))
            elif kind == "num":
                self.numeric(c, num_max)
            else:
                self.categorical(c)
            self.cols.append(c)

    def draw(self, f):
        return [int(v) for v in f(self.n + self.m)]

    def numeric(self, c, num_max):
        rng = self.rng
        style = rng.integers(0, 5)
        hi = int(rng.choice([3, 5, num_max, num_max]))
        if style == 0:
            c["v"] = self.draw(lambda k: rng.integers(0, hi + 1, size=k))
        elif style == 1:      # skewed
            c["v"] = self.draw(lambda k: np.minimum(hi, rng.geometric(0.4, size=k)))
        elif style == 2:      # negative values
            c["v"] = self.draw(lambda k: rng.integers(-hi, hi + 1, size=k))
        elif style == 3:      # two values, not 0 and 1
            a, b = rng.choice([[-1, 1], [2, 5], [1, 2]])
            c["v"] = self.draw(lambda k: rng.choice([a, b], size=k))
        else:
            c["v"] = self.draw(lambda k: rng.permutation(np.arange(k) % (2 * hi)) - hi)
        if rng.random() < .4:
            c["q"], c["dtype"] = 4, "float64"
        if rng.random() < .05:
            c["v"] = [c["v"][0] + 3] * self.n + c["v"][self.n:]
        t = set(c["v"][:self.n])
        if t <= {0, c["q"]}:  # would be taken for a binary column
            c["v"] = [v + 7 for v in c["v"]]

    def categorical(self, c):
        rng = self.rng
        k = int(rng.integers(1, 8)) if rng.random() < .2 else int(rng.integers(2, 7))
        p = rng.dirichlet(np.ones(k) * rng.choice([0.5, 2, 20]))
        c["v"] = [int(v) for v in rng.choice(k, size=self.n, p=p)]
        c["v"] += [int(v) for v in rng.integers(0, k + (rng.random() < .3), size=self.m)]
        c["code"] = str(rng.choice(["str", "str", "int"]))
        if c["code"] == "str":
            c["lab"] = [str(v) for v in rng.permutation(CATS)]
            c["dtype"] = str(rng.choice(["object", "category"])) if self.frame else "object"
        else:
            c["lab"] = [int(v) for v in rng.permutation(np.arange(2, 10))]
        c["listed"] = c["code"] == "int" or rng.random() < .5 or not self.frame

    def value(self, c, v):
        if c["kind"] == "cat":
            return c["lab"][v]
        return v / c["q"] if c["q"] > 1 else v

    def categorical_arg(self):
        keys = [c["name"] if self.frame else j for j, c in enumerate(self.cols) if c["kind"] == "cat" and c["listed"]]
        return keys or None

    def datum(self, ix, order=None, index=None):
        cols = [self.cols[j] for j in (order or range(len(self.cols)))]
        if self.frame:
            d = {"cols": [[c["name"], [self.value(c, c["v"][i]) for i in ix]] for c in cols],
                 "dtypes": {c["name"]: c["dtype"] for c in cols}}
            if index is not None:
                d["index"] = index
            return d
        obj = any(c["kind"] == "cat" and c["code"] == "str" for c in cols)
        flt = any(c["q"] > 1 for c in cols)
        return {"X": [[self.value(c, c["v"][i]) for c in cols] for i in ix], "F": len(cols),
                "dtype": "object" if obj else "float64" if flt else "int64"}

    def of_kind(self, kind):
        """the columns of one kind in the order in which the binarizer takes them"""
        cols = [c for c in self.cols if c["kind"] == kind]
        return [c for c in cols if c.get("listed")] + [c for c in cols if not c.get("listed")]

    def sizes(self, kind, v):
        """one number for all columns of a kind, or a list of one for each"""
        for c, n in zip(self.of_kind(kind), v if isinstance(v, list) else [v] * len(self.cols)):
            c["n"] = n

    def record(self, nt, nc):
        self.sizes("num", nt)
        self.sizes("cat", nc)
        return [{"kind": c["kind"], "v": c["v"][:self.n], "new": c["v"][self.n:], "n": c.get("n", 0)} for c in self.cols]

    def parse(self, name):
        """(column number from 1, kind, threshold or categories) of a feature name"""
        for j, c in enumerate(self.cols):
            if c["kind"] == "bin" and name == c["name"]:
                return {"col": j + 1, "k": "b", "t": 0, "c": []}
            if c["kind"] == "num" and name.startswith(c["name"] + " <= "):
                try:
                    t = Fraction(float(name[len(c["name"]) + 4:])) * c["q"] * U
                except ValueError:
                    return None
                return {"col": j + 1, "k": "t", "t": int(t.numerator // t.denominator), "c": []}
            if c["kind"] == "cat":
                lab = {str(v): i for i, v in enumerate(c["lab"])}
                m = re.match(re.escape(c["name"]) + r" (==|in) (.*)$", name, re.S)
                if not m:
                    continue
                vals = m.group(2)
                vals = [vals] if m.group(1) == "==" else vals.strip("[]").split(",")
                vals = [re.sub(r"^'(.*)'$", r"\1", v.strip(), flags=re.S).replace("\\'", "'") for v in vals]
                if all(v in lab for v in vals):
                    return {"col": j + 1, "k": "c", "t": 0, "c": [lab[v] for v in vals]}
        return None


def kinds_of(rng, k=None, need=None):
    k = k or int(rng.integers(1, 6))
    out = [str(v) for v in rng.choice(["bin", "num", "cat"], size=k)]
    if need and need not in out:
        out[int(rng.integers(0, k))] = need
    return out


def targets(rng, n, real):
    return [int(v) for v in (rng.integers(-6, 7, size=n) if real else rng.integers(0, 3, size=n))]


def bin_scenario(rng, key):
    frame = rng.random() < .65
    R = Raw(rng, int(rng.choice([3, 5, 8, 11, 12, 16, 21])), int(rng.integers(0, 8)), kinds_of(rng), frame)
    strat = str(rng.choice(["quantile", "uniform", "tree"]))
    real = bool(rng.random() < .4)
    y = targets(rng, R.n, real)
    nt, nc = int(rng.integers(1, 7)), int(rng.integers(2, 6))
    if rng.random() < .3:
        nt = [int(v) for v in rng.integers(1, 7, size=len(R.of_kind("num")))] or nt
    if rng.random() < .3:
        nc = [int(v) for v in rng.integers(2, 6, size=len(R.of_kind("cat")))] or nc
    allix, new = list(range(R.n)), list(range(R.n, R.n + R.m))
    index = [int(v) for v in rng.choice([3, 3, 7, 9, 11, 20], size=R.n)] if rng.random() < .3 else None
    tr = R.datum(allix, index=index)
    tr.update(y=[v / 2 for v in y] if real else y, ykind="float" if real else "int")
    mixed = [int(v) for v in rng.permutation(R.n + R.m)]
    order = [int(v) for v in rng.permutation(len(R.cols))] if frame and rng.random() < .3 else None
    te = R.datum(mixed, order=order)
    te["ykind"] = "none"
    item = {"id": key, "data": {"f": tr, "t": te},
            "steps": [{"op": "binarize", "e": "b", "d": "f", "a": [strat, nt, nc, R.categorical_arg()]}, {"op": "transform", "e": "b", "d": "t"}]}
    wrong = [(nt + [2], nc), (nt[:-1] + [0], nc)] if isinstance(nt, list) else []
    wrong += [(nt, nc + [3]), (nt, nc[:-1] + [0])] if isinstance(nc, list) else []
    for a, b in wrong:
        item["steps"].append({"op": "binarize", "e": "w", "d": "f", "a": [strat, a, b, R.categorical_arg()]})

    def events(res):
        rejects = []
        if not isinstance(res, dict):
            rejects = [{"ev": "reject", "id": "%s/reject%d" % (key, j), "exc": int("exc" in r)} for j, r in enumerate(res[2:])]
            res = res[:2]
        return made(res) + rejects

    def made(res):
        e = {"ev": "bin", "id": key, "cols": R.record(nt, nc), "strat": strat, "y": y, "cls": [0] if real else [1], "res": "err", "out": []}
        if isinstance(res, dict) or any("exc" in r or "died" in r for r in res):
            if not any(len(set(c["v"][:R.n])) > 1 or c["kind"] == "bin" for c in R.cols):
                return []               # nothing to make a feature of
            return [e]
        a, b = res
        Zt = [None] * (R.n + R.m)
        for i, r in zip(mixed, b["Z"]):
            Zt[i] = r
        names = b["names"]
        ok = len(b["Z"]) == R.n + R.m and len(a["Z"]) == R.n and all(a["Z"][i] == Zt[i] for i in allix) and a["names"] == names
        if not ok:
            return [e]
        e["res"] = "ok"
        for j in range(len(Zt[0])):
            bits = [Zt[i][j] for i in range(R.n + R.m)]
            p = R.parse(names[j]) if names else None
            e["out"].append({"bits": [int(v) if v in (0, 1) else 9 for v in bits], **(p or {"col": 0, "k": "b", "t": 0, "c": []})})
        return [e]
    return Scenario(key, item, events, lambda: {"strat": strat, "nt": nt, "nc": nc, "frame": frame, "kinds": [c["kind"] for c in R.cols],
                                                "categorical": R.categorical_arg()})


def raw_scenario(rng, key):
    """a fit on raw data; few features, and thresholds that floating point represents"""
    frame = rng.random() < .65
    task = str(rng.choice(["accuracy", "accuracy", "regression", "group-fairness"]))
    fair = task == "group-fairness"
    ks = kinds_of(rng, int(rng.integers(1 + fair, 4)), "bin" if fair else None)
    R = Raw(rng, int(rng.choice([5, 8, 11, 14])), int(rng.integers(1, 8)), ks, frame, num_max=8)
    strat = str(rng.choice(["quantile", "uniform", "tree"]))
    nt = int(rng.choice({"quantile": [1, 3], "uniform": [1, 2, 4], "tree": [1, 2, 3]}[strat]))
    nc = int(rng.integers(2, 5))
    real = task == "regression"
    y = targets(rng, R.n, real)
    w = 2 if real else 3
    sens, ln, lq = 0, 1, 1
    kw = {}
    if fair:
        sens = ks.index("bin")
        y = [min(v, 1) for v in y]
        y[:2] = [0, 1]
        c = R.cols[sens]
        c["v"][:4] = [0, 0, 1, 1]
        kind = str(rng.choice(["bin", "bin", "cat", "num"]))
        group = list(c["v"])
        if kind == "cat":
            ks[sens] = c["kind"] = kind
            c.update(code="str", lab=["no", "yes"], dtype="object", listed=True)
        elif kind == "num":
            ks[sens] = c["kind"] = kind
            c.update(v=[2 * v - 1 for v in c["v"]], dtype="int64")
        ln, lq = int(rng.integers(0, 5)), 4
        kw = {"discrimination_limit": ln / lq, "sensitive_feature": R.cols[sens]["name"] if frame and rng.random() < .5 else sens}
        s = [[int(group[i] * 2 + y[i] == k) for k in range(4)] for i in range(R.n)]
        w = 4
    elif real:
        s = [[v, v * v] for v in y]
    else:
        if not set(y) >= {0, 1, 2}:
            y[:3] = [0, 1, 2]
        s = [[int(v == k) for k in range(3)] for v in y]
    d = int(rng.integers(1, 3))
    cls = {"accuracy": "STreeDClassifier", "regression": "STreeDRegressor", "group-fairness": "STreeDGroupFairnessClassifier"}[task]
    kw.update(max_depth=d, continuous_binarize_strategy=strat, n_thresholds=nt, n_categories=nc)
    if not fair:
        kw["optimization_task"] = task
    tr = R.datum(list(range(R.n)))
    tr.update(y=[v / 2 for v in y] if real else y, ykind="float" if real else "int")
    if R.categorical_arg():
        tr["categorical"] = R.categorical_arg()
    order = [int(v) for v in rng.permutation(len(R.cols))] if frame and rng.random() < .3 else None
    te = R.datum(list(range(R.n + R.m)), order=order)
    te["ykind"] = "none"
    item = {"id": key, "data": {"f": tr, "t": te},
            "steps": [{"op": "new", "e": "e", "cls": cls, "kw": kw}, {"op": "fit", "e": "e", "d": "f"}, {"op": "predict", "e": "e", "d": "t"}]}

    def events(res):
        if not any(len(set(c["v"][:R.n])) > 1 or c["kind"] == "bin" for c in R.cols):
            return []
        e = {"ev": "raw", "id": key, "cols": R.record(nt, nc), "strat": strat, "y": y, "s": s, "cls": [0] if real else [1], "res": "err", "out": [],
             "task": task, "w": w, "ml": 1, "d": d, "sens": sens + 1 if fair else 0, "ln": ln, "lq": lq}
        if not isinstance(res, dict) and all("exc" not in r and "died" not in r for r in res) and len(res[2]["out"]) == R.n + R.m:
            e.update(res="ok", out=[int(round(v * 1000)) if real else int(v) for v in res[2]["out"]])
        return [e]
    return Scenario(key, item, events, lambda: {"task": task, "strat": strat, "nt": nt, "nc": nc, "frame": frame, "kw": kw, "kinds": ks,
                                                "categorical": R.categorical_arg()})


def binarised(ctx, count, raw, clauses):
    rng = ctx.rng(18)
    scen = [bin_scenario(rng, "b%d" % i) for i in range(count)] + [raw_scenario(rng, "r%d" % i) for i in range(raw)]
    return conform(ctx, scen, "BinTrace", clauses)
