"""Runs scenario items against the built package.  Reads items (JSON lines)
from argv[1] starting at argv[3], appends one result line per item to argv[2].

An item is {"id", "data": {name: {...}}, "steps": [...]}; every step produces
one record.  A line {"start": i} precedes each item so that the parent can tell
which item was running when the process died.
"""
import contextlib
import ctypes
import io
import json
import os
import signal
import subprocess
import sys
import tempfile
import warnings

import numpy as np
import pandas as pd

import pystreed  # noqa: E402  (PYTHONPATH is set by the parent)
from pystreed import cstreed

CLASSES = {n: getattr(pystreed, n) for n in dir(pystreed) if n.startswith("STreeD")}


def tree_json(t):
    if t.is_leaf_node():
        lab = t.label
        if hasattr(lab, "coefficients"):
            return [{"b0": float(lab.intercept), "b": [float(v) for v in lab.coefficients]}]
        return [lab if isinstance(lab, int) else float(lab)]
    return [int(t.feature), tree_json(t.left_child), tree_json(t.right_child)]


def np_x(d):
    if "cols" in d:   # data frame given column-wise
        df = pd.DataFrame({k: v for k, v in d["cols"]})
        for c, ty in d.get("dtypes", {}).items():
            df[c] = df[c].astype(ty)
        if "index" in d:
            df.index = d["index"]
        return df
    X = np.array(d["X"], dtype=d.get("dtype", "int64"))
    return X.ravel() if d.get("flat") else X.reshape(len(d["X"]), d.get("F", -1))


def np_y(d):
    k = d.get("ykind", "int")
    if k == "none":
        return None
    if k == "int":
        return np.array(d["y"], dtype=int)
    if k == "surv":
        return np.array([(bool(e), float(t)) for e, t in d["y"]], dtype=[("event", bool), ("time", float)])
    if k == "raw":
        return d["y"]
    return np.array(d["y"], dtype=float)


class Runner:
    def __init__(self, item):
        self.item = item
        self.est = {}
        self.raw = {}
        self.data = {}
        self.saved = {}
        self.conts = {}

    def get(self, name):
        if name not in self.data:
            d = self.item["data"][name]
            self.data[name] = (np_x(d), np_y(d), d)
        return self.data[name]

    def cont(self, name):
        if name not in self.conts:
            self.conts[name] = np.array(self.item["data"][name]["cont"], dtype=float)
        return self.conts[name]

    def args(self, name, fit):
        X, y, d = self.get(name)
        kw = {}
        for k in ("categorical", "continuous_columns", "categorical_columns"):
            if fit and k in d:
                kw[k] = d[k]
        if fit and "costs" in d:
            c = d["costs"]
            if c.get("file"):
                with tempfile.NamedTemporaryFile("w", suffix=".txt") as fh:
                    fh.write("".join(" ".join(repr(v) for v in r) + "\n" for r in c["matrix"]) + "name cost discount group begin end\n")
                    feats = "".join("f%d %r %r %s %d %d\n" % (j, *f) for j, f in enumerate(c["features"]))
                    fh.write(feats.rsplit(" ", c["cut"])[0] if "cut" in c else feats + "\n" * (len(feats) % 2))
                    fh.flush()
                    return (X, y, cstreed.CostSpecifier(fh.name, len(c["matrix"]))), kw
            fcs = [cstreed.FeatureCostSpecifier(float(f[0]), float(f[1]), str(f[2]), int(f[3]), int(f[4])) for f in c["features"]]
            return (X, y, cstreed.CostSpecifier([[float(v) for v in r] for r in c["matrix"]], fcs)), kw
        if "cont" in d:
            kw["continuous_columns"] = self.cont(name)
        if "extra" in d:
            kw["extra_data"] = np.array(d["extra"], dtype=float)
        return (X, y), kw

    def step(self, s):
        op = s["op"]
        if op == "new":
            self.est[s["e"]] = CLASSES[s["cls"]](**s.get("kw", {}))
            return {}
        if op == "clone":
            from sklearn.base import clone
            self.est[s["e"]] = clone(self.est[s["of"]])
            return {}
        e = self.est.get(s.get("e"))
        if op == "set":
            e.set_params(**s["kw"])
            return {}
        if op == "setattr":
            for k, v in s["kw"].items():
                setattr(e, k, v)
            return {}
        if op == "fit":
            a, kw = self.args(s["d"], True)
            e.fit(*a, **kw)
            return self.fitted(e)
        if op == "timed":     # a fit during which the clock jumps at the given query
            a, kw = self.args(s["d"], True)
            lib = ctypes.CDLL(os.environ["LD_PRELOAD"])
            lib.vclock_arm(ctypes.c_long(s["at"]), ctypes.c_long(10 ** 6))
            try:
                e.fit(*a, **kw)
            finally:
                lib.vclock_disarm.restype = ctypes.c_long
                n = lib.vclock_disarm()
            return {**self.fitted(e), "queries": int(n)}
        if op == "tuned":     # a fit, what the library printed meanwhile and the setting it ended with
            a, kw = self.args(s["d"], True)
            with tempfile.TemporaryFile() as out:
                old = os.dup(1)
                os.dup2(out.fileno(), 1)
                try:
                    with contextlib.redirect_stdout(io.StringIO()) as buf:
                        e.fit(*a, **kw)
                finally:
                    os.dup2(old, 1)
                    os.close(old)
                out.seek(0)
                text = out.read().decode(errors="replace") + buf.getvalue()
            p = e.get_solver_params()
            return {**self.fitted(e), "text": text, "params": {k: getattr(p, k) for k in s["names"]}}
        if op == "state":
            return self.fitted(e)
        if op == "predict":
            X = self.get(s["d"])[0]
            if "rows" in s:
                X = X[s["rows"]] if isinstance(X, np.ndarray) else X.iloc[s["rows"]]
            kw = {}
            if "cont" in self.item["data"][s["d"]]:
                c = self.cont(s["d"])
                kw["continuous_columns"] = c[s["rows"]] if "rows" in s else c
            if "dtype" in s:
                X = X.astype(s["dtype"])
            return {"out": [float(v) for v in np.asarray(e.predict(X, **kw)).ravel()]}
        if op == "curves":    # survival curves, as arrays or as step functions
            X = self.get(s["d"])[0]
            X = X[s["rows"]] if isinstance(X, np.ndarray) else X.iloc[s["rows"]]
            f = e.predict_survival_function if s["kind"] == "survival" else e.predict_cumulative_hazard_function
            if s["array"]:
                return {"times": [float(t) for t in e.unique_times_], "out": [[float(v) for v in r] for r in f(X, return_array=True)]}
            fs = f(X)
            ts = [float(t) for t in fs[0].x]
            return {"times": ts if all(list(g.x) == list(fs[0].x) for g in fs) else [], "out": [[float(g(t)) for t in ts] for g in fs]}
        if op == "cli":
            exe = os.environ[s["exe"]] if "exe" in s else os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(pystreed.__file__))), "streed")
            with tempfile.TemporaryDirectory() as td:
                for name, body in s["files"].items():
                    with open(os.path.join(td, name), "w", newline="") as f:
                        f.write(body)
                p = subprocess.run([exe] + s["args"], cwd=td, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                return {"rc": p.returncode, "out": p.stdout.decode(errors="replace")[-20000:]}
        if op == "proba":
            X = self.get(s["d"])[0]
            return {"out": [[float(v) for v in r] for r in e.predict_proba(X)], "classes": [int(c) for c in getattr(e, "classes_", [])]}
        if op in ("score", "qlen", "eval"):
            a, kw = self.args(s["d"], False)
            if "rows" in s:
                ix = s["rows"]
                a = tuple(v[ix] if isinstance(v, np.ndarray) else v.iloc[ix] for v in a)
                kw = {k: v[ix] for k, v in kw.items()}
            r = {}
            if op in ("score", "eval"):
                r["score"] = float(e.score(*a, **kw))
            if op in ("qlen", "eval"):
                r["ql"] = float(e.get_question_length(*a, **kw))
            return r
        if op == "info":
            return {"leaves": int(e.get_n_leaves()), "depth": int(e.get_depth()), "tree": tree_json(e.get_tree())}
        if op == "call":
            v = getattr(e, s["m"])(*s.get("a", []), **s.get("kw", {}))
            return {"val": v if isinstance(v, (int, float, str, bool, type(None))) else type(v).__name__}
        if op == "exports":   # everything an estimator tells about its tree
            with tempfile.TemporaryDirectory() as td:
                e.print_tree(os.path.join(td, "t.txt"))
                e.export_dot(os.path.join(td, "t.dot"))
            return {"leaves": int(e.get_n_leaves()), "depth": int(e.get_depth()), "tree": tree_json(e.get_tree())}
        if op == "print":
            kw = {k: s[k] for k in ("feature_names", "label_names") if k in s}
            if s.get("stdout"):
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    e.print_tree(**kw)
                return {"text": buf.getvalue()}
            with tempfile.TemporaryDirectory() as td:
                fn = os.path.join(td, "t.txt")
                e.print_tree(fn, **kw)
                return {"text": open(fn, encoding="utf-8").read()}
        if op == "dot":
            kw = {k: s[k] for k in ("feature_names", "label_names") if k in s}
            with tempfile.TemporaryDirectory() as td:
                fn = os.path.join(td, "t.dot")
                hide = ("matplotlib", "matplotlib.pyplot") if s.get("plain") else ()     # without it, nodes carry text
                keep = {m: sys.modules.get(m) for m in hide}
                try:
                    for m in hide:
                        sys.modules[m] = None
                    e.export_dot(fn, **kw)
                finally:
                    for m in hide:
                        del sys.modules[m]
                        if keep[m] is not None:
                            sys.modules[m] = keep[m]
                return {"text": open(fn, encoding="utf-8").read()}
        if op == "names":     # of the binary features
            n = getattr(e, "feature_names_in_", None)
            return {"names": None if n is None else [str(v) for v in n], "F": int(e.n_features_in_), "str": str(e.tree_) if hasattr(e, "tree_") else ""}
        if op == "solverparams":
            p = e.get_solver_params()
            return {k: getattr(p, k) for k in s["names"]}
        if op == "snap":      # remember a deep copy of the caller's data
            X, y, d = self.get(s["d"])
            self.saved[s["d"]] = (X.copy(), None if y is None else y.copy(), self.cont(s["d"]).copy() if "cont" in d else None)
            return {}
        if op == "same":      # is the caller's data still what it was?
            X, y, d = self.get(s["d"])
            X0, y0, c0 = self.saved[s["d"]]
            if c0 is not None and not np.array_equal(self.cont(s["d"]), c0):
                return {"same": False}
            if isinstance(X, pd.DataFrame):
                ok = X.equals(X0) and list(X.columns) == list(X0.columns)
            else:
                ok = X.dtype == X0.dtype and np.array_equal(X, X0)
            return {"same": bool(ok and (y is None or (y.dtype == y0.dtype and np.array_equal(y, y0))))}
        if op == "binarize":
            from pystreed.binarizer import Binarizer
            X, y, d = self.get(s["d"])
            b = Binarizer(*s["a"])
            self.raw[s["e"]] = b
            b.fit(X, y)
            return self.bin_out(b, X)
        if op == "transform":
            return self.bin_out(self.raw[s["e"]], self.get(s["d"])[0])
        if op == "estbin":
            X = e._binarize_data(self.get(s["d"])[0], reset=False)
            return {"X": [[int(v) for v in r] for r in np.asarray(X)], "names": [str(c) for c in getattr(X, "columns", [])]}
        if op == "raw":       # low-level solver with options the estimators do not expose
            X, y, d = self.get(s["d"])
            p = cstreed.ParameterHandler()
            for k, v in s["params"].items():
                setattr(p, k, v)
            if s.get("new", True) or s["e"] not in self.raw:
                rng = cstreed.RandomEngine(int(s.get("seed", 27)))
                sol = cstreed.initialize_streed_solver(p, rng)
                self.raw[s["e"]] = (sol, rng, p)
            else:
                sol, rng, _ = self.raw[s["e"]]
                sol._update_parameters(p)
            if "costs" in d:
                sol.specify_costs(self.args(s["d"], True)[0][2])
            res = sol._solve(X.astype(np.intc), y, [])
            r = self.result(res)
            if r["feas"]:
                r["tree"] = tree_json(sol._get_tree(res))
            return r
        raise KeyError(op)

    def bin_out(self, b, X):
        Z = b.transform(X)
        names = [str(c) for c in Z.columns] if isinstance(Z, pd.DataFrame) else None
        Z = np.asarray(Z)
        return {"Z": [[float(v) for v in r] for r in Z], "names": names}

    def result(self, res):
        r = {"feas": bool(res.is_feasible()), "opt": bool(res.is_optimal())}
        if r["feas"]:
            r.update(score=float(res.score()), ql=float(res.question_length()), depth=int(res.tree_depth()), nodes=int(res.tree_nodes()))
        return r

    def fitted(self, e):
        res = getattr(e, "fit_result", None)
        if res is None:
            return {"feas": False}
        r = self.result(res)
        if r["feas"]:
            r["tree"] = tree_json(e.get_tree())
            r["leaves"] = int(e.get_n_leaves())
            r["gdepth"] = int(e.get_depth())
        return r

    def run(self):
        out = []
        for s in self.item["steps"]:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    rec = self.step(s)
                except Exception as ex:  # noqa: BLE001  observed behaviour of the code under test
                    rec = {"exc": type(ex).__name__, "mro": [c.__name__ for c in type(ex).__mro__], "msg": str(ex)[:300]}
            if any(issubclass(w.category, UserWarning) for w in ws):
                rec["warned"] = True
            out.append(rec)
        return out


def clean(o):
    if isinstance(o, float):
        return o if np.isfinite(o) else str(o)
    if isinstance(o, dict):
        return {k: clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    return o


def main():
    items, out, start = sys.argv[1], sys.argv[2], int(sys.argv[3])
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    # anything the library prints to fd 1 must not disturb the protocol
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    with open(out, "a") as fh:
        for i, line in enumerate(open(items)):
            if i < start:
                continue
            item = json.loads(line)
            fh.write(json.dumps({"start": i}) + "\n")
            fh.flush()
            res = Runner(item).run()
            fh.write(json.dumps({"i": i, "id": item["id"], "res": clean(res)}) + "\n")
            fh.flush()


if __name__ == "__main__":
    main()
