"""Shared frame of all checks: seeds, tiers, evidence, violations."""
import json
import os
import sys
import time
import traceback

import numpy as np

import build
import run

VERIF = build.VERIF


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.only = os.environ.get("VERIF_ONLY")        # replay: a single scenario
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.models = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *salt):
        return np.random.default_rng([self.seed, int(self.prop[1:]), *salt])

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def add_model(self, name, gen, dist):
        self.states += dist
        self.transitions += gen
        self.models.append({"model": name, "states": dist, "transitions": gen})

    def model(self, module, cfg=None, **kw):
        """model-check a module; a violated invariant is an error of the spec"""
        rc, out, gen, dist = run.tlc(module, cfg=cfg, **kw)
        self.add_model(cfg or module, gen, dist)
        return out

    def refute(self, module, cfg, **kw):
        """a model with one condition dropped: TLC has to find a violation"""
        rc, out, gen, dist = run.tlc(module, cfg=cfg, ok_codes=None, **kw)
        if "is violated" not in out:
            raise run.Trouble("%s should have been refuted\n%s" % (cfg, out[-1500:]))
        self.add_model(cfg, gen, dist)

    def simulate(self, module, cfg, num, depth, **kw):
        """random behaviours of a model, all invariants checked"""
        out = self.model(module, cfg, args=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)), **kw)
        m = run.CHECKED.findall(out)
        self.add_model(cfg + " (simulated)", int(m[-1].replace(",", "")) if m else 0, 0)

    def violate(self, key, what, detail):
        self.violations.append((key, what, detail))

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_judged": self.events, "samples": self.samples, "models": self.models}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        d = os.path.join(build.WORK, "replay")
        os.makedirs(d, exist_ok=True)
        for i in range(3):
            path = os.path.join(d, "%s-%d.json" % (self.prop, i))
            if os.path.exists(path):
                os.remove(path)
        for i, (key, what, detail) in enumerate(self.violations[:3]):
            path = os.path.join(d, "%s-%d.json" % (self.prop, i))
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "scenario": key, "what": what,
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY=%s python3 /verif/check.py %s" % (self.seed, self.tier, key, self.prop),
                           "detail": detail}, fh, indent=1)
            print("%s: scenario %s: %s" % (self.prop, key, what))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s %s: %d traces, %d events, %d states, %d violations, %.1f s" % (
            self.prop, self.tier, self.traces, self.events, self.states, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


class Scenario:
    """One worker item and the way its results become trace events."""

    def __init__(self, key, item, events, describe=None):
        self.key = key              # stable name within the check
        self.item = item
        self.events = events        # function: results -> list of trace events
        self.describe = describe or (lambda: None)


def conform(ctx, scenarios, module, clauses, hang_s=60, extra_env=None, name=None, heap="1200m", tlc_env=None, nproc=None):
    """Run scenarios in the implementation, validate the recorded traces with
    TLC, and report (after a second, isolated run) events breaking `clauses`."""
    if ctx.only is not None:
        scenarios = [s for s in scenarios if s.key == ctx.only]
        if not scenarios:
            return {}
    res = run.run_items([s.item for s in scenarios], hang_s=hang_s, extra=extra_env, nproc=nproc)
    groups = [s.events(r) for s, r in zip(scenarios, res)]
    bad, gen, dist = run.judge(module, groups, heap=heap, env=tlc_env)
    ctx.add_model(name or module, gen, dist)
    ctx.traces += len(groups)
    ctx.events += sum(len(g) for g in groups)
    other = {}
    hits = []
    for s, g in zip(scenarios, groups):
        c = sorted({x for e in g for x in bad.get(e["id"], [])})
        mine = [x for x in c if x in clauses]
        for x in c:
            if x not in clauses:
                other[x] = other.get(x, 0) + 1
        if mine:
            hits.append((s, mine))
    died = {s.key: r["died"] for s, r in zip(scenarios, res) if isinstance(r, dict) and "died" in r}
    for s, mine in hits[:5]:
        # a second, isolated run must show the same before it counts
        r2 = run.run_items([s.item], hang_s=hang_s, extra=extra_env)
        g2 = s.events(r2[0])
        b2, _, _ = run.judge(module, [g2], heap=heap, env=tlc_env)
        again = sorted({x for e in g2 for x in b2.get(e["id"], []) if x in clauses})
        if again:
            ctx.violate(s.key, "breaks %s" % ", ".join(again),
                        {"item": s.item, "results": r2[0], "broken": {k: v for k, v in b2.items()}, "about": s.describe(),
                         "events": [e for e in g2 if e["id"] in b2][:4]})
        elif died.get(s.key) in ("hang", "rc=-9"):
            # stopped by a busy machine, not by the code
            ctx.extra.setdefault("unconfirmed", []).append(s.key)
            print("note: scenario %s was stopped once (%s) but not again" % (s.key, died[s.key]))
        else:
            ctx.extra.setdefault("unconfirmed", []).append(s.key)
            print("note: scenario %s was rejected once (%s) but not again" % (s.key, ", ".join(mine)))
            ctx.violate(s.key, "breaks %s (in a shared process only)" % ", ".join(mine), {"item": s.item})
    if other:
        ctx.extra["other_clauses_broken"] = other
    for s, g in list(zip(scenarios, groups))[:: max(1, len(groups) // 3)]:
        ctx.sample({"scenario": s.key, "first_events": g[:2]})
    return dict(zip([s.key for s in scenarios], groups))


def main(prop, fn, level="model_checking"):
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
        return ctx.finish()
    except (build.BuildError, run.Trouble) as e:
        print("%s: check could not run: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
