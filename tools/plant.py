#!/usr/bin/env python3-vt
"""plant.py SPEC.json: writes seeded/<id>/ from a description of the edit.
SPEC: {"id","property","needs","what","edits":[[file, old, new],...],"demo": python source, "files": {name: text}}
The edit is applied to /repo only to take the diff, and undone."""
import json
import os
import subprocess
import sys

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
REPO = "/repo"
BF = '''"""Brute force over all trees, for additive objectives."""


def best(X, leaf, d, k, ml=1, test=lambda ix, path, f: 0, F=None):
    """minimum of the leaf costs plus test costs; leaf(ix) gives the cost of the best label"""
    F = range(len(X[0])) if F is None else F

    def rec(ix, path, d, k):
        if len(ix) < ml:
            return float("inf")
        b = leaf(ix)
        if d == 0 or k == 0:
            return b
        for f in F:
            if f in path:
                continue
            l = [i for i in ix if X[i][f] == 0]
            r = [i for i in ix if X[i][f] == 1]
            if len(l) < ml or len(r) < ml:
                continue
            c = test(ix, path, f)
            for kl in range(k):
                b = min(b, c + rec(l, path + (f,), d - 1, kl) + rec(r, path + (f,), d - 1, k - 1 - kl))
        return b
    return rec(list(range(len(X))), (), d, k)


def errors(y):
    return lambda ix: len(ix) - max([sum(y[i] == c for i in ix) for c in set(y)])


def sse(y):
    def leaf(ix):
        m = sum(y[i] for i in ix) / len(ix)
        return sum((y[i] - m) ** 2 for i in ix)
    return leaf


def route(t, x):
    while not t.is_leaf_node():
        t = t.right_child if x[t.feature] else t.left_child
    return t.label


def leaves(t, X, ix=None):
    ix = list(range(len(X))) if ix is None else ix
    if t.is_leaf_node():
        return [(t.label, ix)]
    return leaves(t.left_child, X, [i for i in ix if not X[i][t.feature]]) + leaves(t.right_child, X, [i for i in ix if X[i][t.feature]])
'''


def git(*a):
    return subprocess.run(["git", "-C", REPO, *a], check=True, capture_output=True).stdout


def plant(s):
    assert not git("status", "--porcelain").strip(), "repo not clean"
    d = os.path.join(SEEDED, s["id"])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(REPO, f)
            b = open(p, "rb").read()
            crlf = b"\r\n" in b
            o, n = old.encode(), new.encode()
            if crlf:
                o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
            assert b.count(o) == 1, (f, b.count(o), old)
            open(p, "wb").write(b.replace(o, n))
        open(os.path.join(d, "patch.diff"), "wb").write(git("diff"))
    finally:
        git("checkout", "--", ".")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "demo" in s:
        open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        if "from bf import" in s["demo"] or "import bf" in s["demo"]:
            open(os.path.join(d, "bf.py"), "w").write(BF)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 250 /opt/vp/venv/bin/python "$here/demo.py"\n')
    for name, text in s.get("files", {}).items():
        open(os.path.join(d, name), "w").write(text)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


if __name__ == "__main__":
    plant(json.load(open(sys.argv[1])))
