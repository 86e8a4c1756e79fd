#!/usr/bin/env python3
"""Decides one property.  usage: check.py PROPERTY

Exit 0: held on everything explored; 1: VIOLATION line; 2: the check failed.
"""
import json
import os
import random
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import plan  # noqa: E402
import tlc  # noqa: E402

OUT = os.path.join(ROOT, "out")
EVIDENCE = os.path.join(ROOT, "evidence")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def show_event(e, srcs):
    """an event with its specification and arguments in Python notation"""
    r = dict(e)
    if "sp" in e:
        r["spec"] = srcs[e["sp"] - 1]
    if e["op"] == "dec":
        r["bytes"] = repr(bytes(e["s"]))
    return r


def write_replay(prop, n, session, bad, tr, note=""):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump({"property": prop, "scenario": session.label, "note": note,
                   "violated": [{"event": i, "clauses": c} for i, c in bad],
                   "events": [show_event(e, tr.specs.src) for e in session.ev]}, f, indent=1, ensure_ascii=True)
        f.write("\n")
    return path


def sample(session):
    e = session.ev[0]
    s = {"scenario": session.label, "events": [x["op"] for x in session.ev][:12]}
    if e["op"] == "dec":
        s["bytes"] = repr(bytes(e["s"]))[:160]
    if e["op"] == "enc":
        s["fields"] = e["dk"][:20]
    for x in session.ev:
        if "o" in x:
            s["outcome"] = {k: x["o"][k] for k in ("k", "f", "pos", "msg")}
            break
    return s


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.seed = prop, tier, seed()
        self.t0 = time.time()
        self.res = None
        self.samples = []
        self.families = {}
        self.models = []
        self.violations = []
        self.crashes = []

    def families_round(self, mix, rnd, scale):
        import drivers
        import objects
        import surface
        import trace
        iso = None
        if any(m[0] in plan.ISOLATED for m in mix):
            import isolation as iso
        batch = trace.Tracer()
        for item in mix:
            name, n, kw = item[0], item[1], item[2] if len(item) > 2 else {}
            fn = next(getattr(m, name) for m in (drivers, surface, objects, iso) if m is not None and hasattr(m, name))
            rng = random.Random("%s-%s-%s" % (self.seed, name, rnd))
            before = len(batch.sessions)
            try:
                fn(rng, batch, max(1, int(n * scale)), **kw)
            except Exception:       # what was recorded so far is judged all the same
                self.crashes.append((name, traceback.format_exc()))
            self.families[name] = self.families.get(name, 0) + len(batch.sessions) - before
        self.judge(batch)

    def judge(self, tr, chunk=12000):
        import trace
        sess = [s for s in tr.sessions if s.ev]
        parts, cur, size = [], [], 0
        for s in sess:
            if cur and size + len(s.ev) > chunk:
                parts.append(cur)
                cur, size = [], 0
            cur.append(s)
            size += len(s.ev)
        if cur:
            parts.append(cur)
        for p in parts:
            sub = trace.Tracer()
            sub.specs, sub.sessions = tr.specs, p
            r = trace.validate(self.prop, sub)
            if self.res is None:
                self.res = trace.Result()
            self.res.add(r)
            rng = random.Random(len(p))
            for s in rng.sample(p, min(2, len(p))):
                if len(self.samples) < 12:
                    self.samples.append(sample(s))
            for session, bad in r.bad:
                self.violations.append((session, bad, tr))
            if len(self.violations) > 200:
                return

    def evidence(self, level="model_checking"):
        r = self.res
        cov = {
            "states": (r.states if r else 0) + sum(m["states"] for m in self.models),
            "transitions": (r.transitions if r else 0) + sum(m["transitions"] for m in self.models),
            "traces_validated_against_impl": (r.sessions if r else 0) + sum(m["behaviours_replayed"] for m in self.models),
            "events_recorded": r.events if r else 0,
            "events_judged": r.judged if r else 0,
            "sessions_per_scenario_family": self.families,
            "design_models": self.models,
            "samples": self.samples,
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1),
                       "violations": len(self.violations)}, f, indent=1)
            f.write("\n")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    cfg = plan.CHECKS[prop]
    run = Run(prop, tier)
    os.makedirs(OUT, exist_ok=True)
    for f in os.listdir(OUT):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(OUT, f))
    if any(m[0] in plan.ISOLATED for m in cfg["mix"]):
        import isolation        # before the first call of the library
        isolation.start()
    if tier == "thorough":
        budget = float(os.environ.get("VERIF_BUDGET", "480"))
        run_models(run, cfg, "thorough")
        rnd = 0
        while not run.violations and not run.crashes and (rnd == 0 or time.time() - run.t0 < budget):
            run.families_round(cfg["mix"], "t%d" % rnd, cfg.get("scale", 2))
            rnd += 1
    else:
        run.families_round(cfg["mix"], "q", 1)
        if not run.violations:
            run_models(run, cfg, "quick")
    if run.res is None or run.res.judged == 0:
        print("machinery error: the property was not exercised", file=sys.stderr)
        return 2
    run.evidence()
    r = run.res
    print("%s: %d sessions, %d events, %d judged, %d+%d states, %.1f s" % (
        prop, r.sessions, r.events, r.judged, r.states, sum(m["states"] for m in run.models), time.time() - run.t0))
    if run.violations:
        for n, (session, bad, tr) in enumerate(run.violations[:5]):
            path = write_replay(prop, n + 1, session, bad, tr)
            clauses = sorted({c for _, cs in bad for c in cs})
            print("  %s: %s" % (session.label, ", ".join(map(str, clauses))))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if run.crashes:
        for name, text in run.crashes[:3]:
            print("machinery error: scenario family %s\n%s" % (name, text), file=sys.stderr)
        return 2
    return 0


def run_models(run, cfg, tier):
    if not cfg.get("models"):
        return
    import models
    for name in cfg["models"]:
        models.run(name, run, tier, plan.SIZES[name][tier])
        if run.violations:
            return


if __name__ == "__main__":
    try:
        rc = main()
    except tlc.Machinery as e:
        print("machinery error: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
