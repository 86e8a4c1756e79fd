#!/usr/bin/env python3
"""Corrupts recorded traces and validates them: Trace.tla must stay total
(never fail to evaluate) and must reject what differs.
usage: corrupt.py [seed [property ...]]"""
import copy, os, random, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
import isolation
isolation.start()
import drivers, objects, plan, surface, tlc, trace

seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
props = sys.argv[2:] or sorted(plan.CHECKS)
KS = ["ok", "DecodeError", "EncodeError", "KeyError", "TypeError", "Hang", "not-a-pair", "DecodeError-no-ValueError"]
KEYS = [-3, -2, -1, 0, 1, 2, 65, 66, 128, 129, 192, 193, 1000]
VAL = [[-1], [], [0], [48], [65, 66], [255] * 3, [70] * 16, [300, 8364], [49] * 32]


def garble(rng, e):
    o = e.get("o")
    if o is None:
        if "tx" in e:
            c = rng.randrange(6)
            if c == 0: e["tx"] = [-1]
            elif c == 1: e["tx"] = e["tx"][:rng.randrange(len(e["tx"]) + 1)]
            elif c == 2: e["k"] = rng.choice(KS)
            elif c == 3 and e["tx"]: e["tx"][rng.randrange(len(e["tx"]))] = rng.choice([10, 32, 39, 34, 92, 58, 120, 0x1f600])
            elif c == 4: e["tx"] = e["tx"] + rng.choice([[10], [32], [65, 10]])
            elif e["tx"]: del e["tx"][rng.randrange(len(e["tx"]))]
        elif e["op"] == "same": e["a"] = rng.choice([e["b"], "x", e["a"]]) if isinstance(e["a"], str) else e["a"]
        elif e["op"] == "wrong": e["k"] = rng.choice(KS)
        return
    n = rng.choice(["k", "d", "d", "d", "e", "e", "e", "raw", "f", "pos", "msg", "txt", "own", "dx", "ex", "ty", "x"])
    if n == "k": o["k"] = rng.choice(KS)
    elif n == "d":
        c = rng.randrange(3)
        if c == 0 and o["dk"]:
            i = rng.randrange(len(o["dk"])); del o["dk"][i]; del o["dv"][i]
        elif c == 1 and o["dk"]: o["dv"][rng.randrange(len(o["dk"]))] = rng.choice(VAL)
        else:
            k = rng.choice(KEYS)
            if k not in o["dk"]: o["dk"].append(k); o["dv"].append(rng.choice(VAL))
    elif n == "e":
        c = rng.randrange(4)
        if c == 0 and o["ek"]:
            i = rng.randrange(len(o["ek"])); del o["ek"][i]; del o["el"][i]; del o["ed"][i]
        elif c == 1 and o["ek"]: o["el"][rng.randrange(len(o["ek"]))] = rng.choice([[-1], [], [0], [49], [255, 255], [48, 48, 50]])
        elif c == 2 and o["ek"]: o["ed"][rng.randrange(len(o["ek"]))] = rng.choice([[-1], [], [0], [49], [255] * 8, [70] * 16])
        else:
            k = rng.choice(KEYS)
            if k not in o["ek"]: o["ek"].append(k); o["el"].append([]); o["ed"].append(rng.choice([[-1], [], [1]]))
    elif n == "raw": o["raw"] = rng.choice([[-1], [], o["raw"][:-1], o["raw"] + [0]])
    elif n == "f": o["f"] = rng.choice(KEYS + [-99])
    elif n == "pos": o["pos"] = rng.choice([0, o["pos"] + 1, -1, -12345])
    elif n in ("msg", "txt"): o[n] = rng.choice(["", "Extra data after last field", "<int>", o["msg"] + "x"])
    elif n == "own": o["own"] = not o["own"]
    elif n == "dx": o["dx"] = rng.choice([[{"t": "str", "v": [48, 50], "y": "1"}], [{"t": "notdict", "v": [], "y": "None"}], []])
    elif n == "ex": o["ex"] = rng.choice([[{"t": "entry", "v": [50], "y": "1"}], [{"t": "notdict", "v": [], "y": "None"}]])
    elif n == "ty": o["ty"] = dict(o["ty"], **{rng.choice(["doc", "enc", "raw"]): "list", rng.choice(["dk", "dv", "ek", "ev"]): ["int", "str"]})
    elif n == "x":
        for _ in range(3): garble(rng, e)


for p in props:
    rng = random.Random("%d-%s" % (seed, p))
    tr = trace.Tracer()
    for item in plan.CHECKS[p]["mix"]:
        name, n = item[0], item[1]
        kw = dict(item[2]) if len(item) > 2 else {}
        if "long" in kw: kw["long"] = 0
        fn = next(getattr(m, name) for m in (drivers, surface, objects, isolation) if hasattr(m, name))
        fn(rng, tr, max(1, min(n, 60)), **kw)
    tr.sessions = [s for s in tr.sessions if s.ev]
    out = trace.Tracer()
    out.specs = tr.specs
    for s in tr.sessions:
        if sum(len(str(e)) for e in s.ev) > 40000:
            continue
        for _ in range(3):
            t = out.session(s.label)
            t.ev = copy.deepcopy(s.ev)
            for e in rng.sample(t.ev, min(len(t.ev), rng.choice([1, 1, 2]))):
                garble(rng, e)
            if t.ev == s.ev:
                out.sessions.pop()
    try:
        r = trace.validate(p, out)
        print("%s: %d corrupted sessions, %d rejected" % (p, r.sessions, len(r.bad)), flush=True)
    except tlc.Machinery as e:
        print("%s: MACHINERY %s" % (p, str(e)[:1800]), flush=True)
