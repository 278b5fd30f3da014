"""Printed and exported trees and class probabilities."""
import html
import re

import numpy as np

import binar
import tasks
from core import Scenario, conform
from fits import random_limits, random_opts
from tasks import fx

TERM = re.compile(r"([-+]?\s?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+))(?:x(\d+))?")
WIDE = 8      # at least the number of linear terms


def text(s, thr=False, real=False):
    """a text as words and numbers; only thresholds and real labels are numbers"""
    s = html.unescape(str(s)).strip().replace("≤", "<=")
    if real:
        v = [0.0] * WIDE
        for x, j in TERM.findall(s):
            v[int(j or 0)] += float(x.replace(" ", ""))
        return {"w": "real" if TERM.sub("", s).strip() == "" else s, "v": [fx(x, 1000) for x in v]}
    if thr and " <= " in s:
        a, b = s.rsplit(" <= ", 1)
        try:
            return {"w": a + " <=", "v": [fx(float(b), 1000)]}
        except ValueError:
            pass
    return {"w": s, "v": []}


def lex_print(s, real):
    out = []
    for line in s.splitlines():
        ind = 0
        while line.startswith("|   "):
            ind, line = ind + 1, line[4:]
        if line.startswith("Label: "):
            out.append({"ind": ind, "kind": 2, "text": text(line[7:], real=real)})
        elif line.endswith(" not satisfied"):
            out.append({"ind": ind, "kind": 0, "text": text(line[:-14], True)})
        elif line.endswith(" satisfied"):
            out.append({"ind": ind, "kind": 1, "text": text(line[:-10], True)})
        elif line.strip():
            out.append({"ind": ind, "kind": 9, "text": text(line)})
    return out


STAT = re.compile(r"N = (\d+), Best = (.*), Costs = ([-+.\de]+)\s*$", re.S)


def lex_dot(s, real, div=1):
    nodes, edges, ids = [], [], {}
    stmts = re.findall(r"^(\d+)\s*(?:->\s*(\d+)\s*)?\[(.*?)\]\s*;\s*$", s, re.M | re.S)
    inner = {a for a, b, _ in stmts if b}
    for a, b, attrs in stmts:
        m = re.search(r"\blabel=\"(.*?)\"", attrs, re.S)
        lab = m.group(1) if m else "?"
        i = ids.setdefault(a, len(ids) + 1)
        if b:
            edges.append({"a": i, "b": ids.setdefault(b, len(ids) + 1), "yes": {"True": 1, "False": 0}.get(lab, 9)})
        else:
            lab, _, stat = lab.partition("\n")      # further lines hold statistics
            m = STAT.match(stat)
            stat = {"n": int(m.group(1)), "best": text(m.group(2)), "cost": fx(float(m.group(3)) * div, 1000)} if m else {"n": -1}
            nodes.append({"id": i, "text": text(lab, a in inner, real and a not in inner), "stat": stat})
    return {"nodes": nodes, "edges": edges}


def lex_text(s, real):
    """the tree as a string: [feature,[..],[..]] or [label]"""
    labs = []

    def rec(at):
        m = re.compile(r"\[(\d+),(?=\[)").match(s, at)
        if m:
            a, at = rec(m.end())
            b, at = rec(at + 1)
            return [int(m.group(1)), a, b], at + 1
        e = s.index("]", at)
        labs.append(text(s[at + 1:e], real=real))
        return [len(labs)], e + 1
    try:
        t, at = rec(0)
    except (ValueError, IndexError, RecursionError):
        return {"tree": [], "labels": [], "rest": s[:100]}
    return {"tree": t, "labels": labs, "rest": s[at:]}


def number_leaves(t, labs):
    if len(t) == 1:
        labs.append(t[0])
        return [len(labs)]
    return [t[0], number_leaves(t[1], labs), number_leaves(t[2], labs)]


def label_text(v, label_names, real):
    if isinstance(v, dict):
        b = [v["b0"]] + v["b"]
        return {"w": "real", "v": [fx(x, 1000) for x in b + [0.0] * (WIDE - len(b))]}
    if real:
        return {"w": "real", "v": [fx(float(v), 1000)] + [0] * (WIDE - 1)}
    return text(label_names[v] if label_names else v)


def events_of(key, res, real, variants, proba, costs=None):
    """variants: list of (feature_names or None, label_names or None); costs: the
    rows, number of labels and divisor of instance costs"""
    if isinstance(res, dict) or "exc" in res[1] or "died" in res[1]:
        return [{"ev": "failed", "id": key}]
    fit = res[1]
    if not fit.get("feas"):
        return []
    labs = []
    tree = number_leaves(fit["tree"], labs)
    names_in = res[2]["names"]
    out = []
    for j, (fn, ln) in enumerate(variants):
        use = fn or names_in
        F = res[2]["F"]
        out.append({"ev": "fitted", "id": "%s/%d" % (key, j), "tree": tree,
                    "names": [text(use[f] if use else "Feature %d" % f, True) for f in range(F)],
                    "labels": [label_text(v, ln, real) for v in labs]})
        p, d = res[3 + 2 * j], res[4 + 2 * j]
        ok = "text" in p
        out.append({"ev": "print", "id": "%s/%dprint" % (key, j), "res": "ok" if ok else "err", "lines": lex_print(p["text"], real) if ok else []})
        ok = "text" in d
        rows, K, div = costs or ([], 0, 1)
        out.append({"ev": "dot", "id": "%s/%ddot" % (key, j), "res": "ok" if ok else "err", "rows": rows, "lnames": [label_text(v, ln, real) for v in range(K)],
                    **(lex_dot(d["text"], real, div) if ok else {"nodes": [], "edges": []})})
        if j == 0:
            out.append({"ev": "text", "id": key + "/text", **lex_text(str(res[2]["str"]), real)})
    if proba:
        r = res[-1]
        e = {"ev": "proba", "id": key + "/proba", "res": "ok" if "out" in r else "err", "out": [[fx(v, 10000) for v in q] for q in r.get("out", [])]}
        e.update(proba)
        out.append(e)
    return out


FEATURES = ["age", "is 'x'", "income <= 5", "rate <= 0.333333333", "a & b", "<b>", "not satisfied", "size <= -12.5", "v <= 100000", "lim <= hi", "a <= b <= 3",
            "tall", "x == 'q'", "colour in ['r','g']", "z <= 1e-07"]
LABELS = ["no", "yes", "may be", "4", "<none>"]


def scenario(rng, key, P):
    d, k = random_limits(rng, P, [1, 2, 3] if P.pareto else [0, 1, 2, 3, 4])
    kw = P.kw(d, k, 1, random_opts(rng, P))
    if not P.free_nodes:
        kw.pop("max_num_nodes", None)
    names = [str(v) for v in rng.permutation(FEATURES)[:P.F]]
    labels = [str(v) for v in rng.permutation(LABELS)]
    if hasattr(P, "K") and rng.random() < .5:
        labels = labels[:max(2, P.K)]
    real = P.task in ("regression", "cost-complex-regression", "survival-analysis", "simple-linear-regression", "piecewise-linear-regression")
    frame = rng.random() < .4 and P.task != "cost-sensitive"
    data = P.datum()
    test = P.datum(range(P.N))
    if frame:
        cols = [str(v) for v in rng.permutation(FEATURES)[:P.F]]
        for q in (data, test):
            q["cols"] = [[c, [r[j] for r in q["X"]]] for j, c in enumerate(cols)]
    variants = [(None, None), (names, labels if not real else None)]
    steps = [{"op": "new", "e": "e", "cls": P.cls, "kw": kw}, {"op": "fit", "e": "e", "d": "f"}, {"op": "names", "e": "e"}]
    for fn, ln in variants:
        a = {k2: v for k2, v in (("feature_names", fn), ("label_names", ln)) if v}
        steps += [{"op": "print", "e": "e", "stdout": bool(rng.random() < .5), **a}, {"op": "dot", "e": "e", "plain": True, **a}]
    proba = None
    if P.cls == "STreeDClassifier":
        steps.append({"op": "proba", "e": "e", "d": "t"})
        rows = P.rows()
        if P.task == "cost-complex-accuracy":
            rows = tasks.Accuracy.rows(P)
        proba = {"xs": [[int(v) for v in x] for x in P.X[:P.N]], "rows": rows, "w": P.width()}
    item = {"id": key, "data": {"f": data, "t": test}, "steps": steps}
    return Scenario(key, item, lambda res: events_of(key, res, real, variants, proba, (P.rows(), P.K, P.div) if P.task == "instance-cost-sensitive" else None),
                    lambda: {"task": P.task, "n": P.n, "kw": kw, "names": names, "labels": labels, "frame": frame})


def raw_scenario(rng, key):
    """trees over thresholds and categories"""
    R = binar.Raw(rng, int(rng.choice([8, 12, 20, 30])), 0, binar.kinds_of(rng, int(rng.integers(1, 5))), True, num_max=20)
    for c in R.cols:
        if c["kind"] == "num":       # odd thresholds
            c["q"], c["dtype"] = int(rng.choice([1, 3, 700, 100000])), "float64"
    labels = [str(v) for v in rng.permutation(LABELS)]
    tr = R.datum(range(R.n))
    tr.update(y=binar.targets(rng, R.n, False))
    if R.categorical_arg():
        tr["categorical"] = R.categorical_arg()
    kw = {"optimization_task": "accuracy", "max_depth": int(rng.integers(1, 4)),
          "continuous_binarize_strategy": str(rng.choice(["quantile", "uniform", "tree"])), "n_thresholds": int(rng.integers(1, 8))}
    variants = [(None, None), (None, labels)]
    steps = [{"op": "new", "e": "e", "cls": "STreeDClassifier", "kw": kw}, {"op": "fit", "e": "e", "d": "f"}, {"op": "names", "e": "e"}]
    for fn, ln in variants:
        steps += [{"op": "print", "e": "e", **({"label_names": ln} if ln else {})}, {"op": "dot", "e": "e", "plain": True, **({"label_names": ln} if ln else {})}]
    item = {"id": key, "data": {"f": tr}, "steps": steps}

    def events(res):
        if not any(len(set(c["v"][:R.n])) > 1 or c["kind"] == "bin" for c in R.cols):
            return []
        return events_of(key, res, False, variants, None)
    return Scenario(key, item, events, lambda: {"kw": kw, "cols": [c["name"] for c in R.cols]})


def exported(ctx, count, raw, clauses):
    rng = ctx.rng(21)
    names = list(tasks.TASKS)
    scen = [scenario(rng, "x%d" % i, tasks.TASKS[names[i % len(names)]](rng, hold=0.3)) for i in range(count)]
    scen += [raw_scenario(rng, "w%d" % i) for i in range(raw)]
    return conform(ctx, scen, "ExportTrace", clauses)
