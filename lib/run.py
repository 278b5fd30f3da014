"""Parallel execution: scenario items through worker.py, traces through TLC."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile
import time

import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
NPROC = min(8, os.cpu_count() or 4)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Trouble(Exception):
    """The check itself could not run (not a verdict about the code)."""


def scratch():
    base = os.path.join(build.WORK, "tmp")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(dir=base)


def _worker_env(pkgdir, extra=None):
    e = dict(os.environ)
    e["PYTHONPATH"] = pkgdir
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    e.update(extra or {})
    return e


def _chunk(pkgdir, items, td, n, hang_s, extra):
    fin, fout = os.path.join(td, "in%d" % n), os.path.join(td, "out%d" % n)
    with open(fin, "w") as fh:
        for it in items:
            fh.write(json.dumps(it) + "\n")
    open(fout, "w").close()
    res = [None] * len(items)
    start = 0
    while start < len(items):
        p = subprocess.Popen([build.PY, os.path.join(VERIF, "lib", "worker.py"), fin, fout, str(start)],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=_worker_env(pkgdir, extra), cwd=td,
                             preexec_fn=os.setsid)
        hung = False
        size, last = -1, time.time()
        while p.poll() is None:
            time.sleep(0.02)
            sz = os.path.getsize(fout)
            if sz != size:
                size, last = sz, time.time()
            elif time.time() - last > hang_s:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        err = p.stderr.read().decode(errors="replace")
        cur = None
        for line in open(fout):
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if "start" in o:
                cur = o["start"]
            else:
                res[o["i"]] = o["res"]
                cur = None
        if p.returncode == 0 and cur is None:
            break
        if cur is None:
            raise Trouble("worker failed before any item: rc=%s %s" % (p.returncode, err[-2000:]))
        res[cur] = {"died": "hang" if hung else "rc=%d" % p.returncode, "stderr": err[-300:]}
        start = cur + 1
    return res


def run_items(items, hang_s=60, extra=None, nproc=None):
    """Results in order; an item whose process died gives {"died": ...}."""
    pkgdir = build.build()
    td = scratch()
    nproc = nproc or NPROC
    try:
        n = max(1, min(nproc, len(items) // 4 or 1))
        cuts = [items[i::n] for i in range(n)]
        with cf.ThreadPoolExecutor(nproc) as ex:
            parts = list(ex.map(lambda a: _chunk(pkgdir, a[1], td, a[0], hang_s, extra), enumerate(cuts)))
        out = [None] * len(items)
        for i in range(n):
            out[i::n] = parts[i]
        if any(o is None for o in out):
            raise Trouble("missing results")
        return out
    finally:
        shutil.rmtree(td, ignore_errors=True)


CHECKED = re.compile(r"number of states generated: ([\d,]+)")
STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, env=None, cfg=None, workers=1, timeout=800, heap="1200m", args=(), td=None, ok_codes=(0,)):
    """Run TLC on spec/<module>.tla; returns (returncode, output, generated, distinct)."""
    own = td is None
    td = td or scratch()
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + td,
           "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(td, "meta" + str(time.time_ns())),
           "-noGenerateSpecTE", "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *args, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=td, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Trouble("TLC timed out on " + module)
    finally:
        if own:
            shutil.rmtree(td, ignore_errors=True)
    m = STATS.findall(r.stdout)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if ok_codes is not None and r.returncode not in ok_codes:
        raise Trouble("TLC rc=%d on %s\n%s" % (r.returncode, module, r.stdout[-3000:]))
    return r.returncode, r.stdout, gen, dist


def judge(module, groups, cfg=None, nproc=None, heap="1200m", env=None, timeout=800):
    """Validate event groups (lists of events that must stay together) against
    a trace specification.  Returns (bad, generated, distinct): bad maps event
    id -> list of broken clauses."""
    td = scratch()
    nproc = nproc or NPROC
    groups = [g for g in groups if g]
    try:
        n = max(1, min(nproc, len(groups)))
        parts = [groups[i::n] for i in range(n)]

        def one(a):
            i, part = a
            tr, vf = os.path.join(td, "t%d.ndjson" % i), os.path.join(td, "v%d.json" % i)
            cnt = 0
            with open(tr, "w") as fh:
                for g in part:
                    for ev in g:
                        fh.write(json.dumps(ev) + "\n")
                        cnt += 1
            rc, out, gen, dist = tlc(module, env={**(env or {}), "TRACE": tr, "VERDICT": vf}, cfg=cfg, heap=heap, td=td, timeout=timeout)
            if not os.path.exists(vf):
                raise Trouble("trace not consumed by %s:\n%s" % (module, out[-2500:]))
            v = json.load(open(vf))
            if v["n"] != cnt:
                raise Trouble("verdict covers %s of %s events" % (v["n"], cnt))
            return v["bad"], gen, dist
        with cf.ThreadPoolExecutor(nproc) as ex:
            rs = list(ex.map(one, enumerate(parts)))
    finally:
        shutil.rmtree(td, ignore_errors=True)
    bad = {}
    for b, _, _ in rs:
        for x in b:
            bad.setdefault(x["id"], []).extend(sorted(x["clauses"]))
    return bad, sum(r[1] for r in rs), sum(r[2] for r in rs)
