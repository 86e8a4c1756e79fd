"""Model checking of the design models (spec/MC_*.tla) and replay of every
behaviour TLC finishes in the real library.

TLC explores a model, checks its invariants and properties in every state and
prints each finished behaviour with the outcome the specification gives it.
Every behaviour is replayed; those whose outcomes differ from the printed ones
(and a sample of the others) become recorded sessions that Trace.tla judges,
so that a difference is an alarm exactly if it breaks the property.
"""
import json
import multiprocessing
import os
import random
import re
import time

import gen
import project as pj
import tlc
import trace

RESULT = re.compile(r'<<\s*"R",\s*("(?:[^"\\]|\\.)*")\s*>>')
KEEP = 400              # differing behaviours judged
SAMPLE = 40             # agreeing behaviours judged


class Other:
    """something that is not text"""

    def __repr__(self):
        return "Other()"


OTHER = Other()


def codec_name(c):
    if c == "?none":
        return "no such codec"
    return gen.ALIASES[c][0] if c in gen.ALIASES else c


def field(f, key):
    r = {"data_enc": codec_name(f["de"]), "len_enc": codec_name(f["le"]), "len_type": f["lt"], "max_len": f["ml"],
         "desc": "".join(map(chr, f["desc"])) if "desc" in f else "Field " + key}
    if f["nib"]:
        r["len_count"] = "nibbles"
    if f["lp"]:
        r["left_pad"] = "".join(map(chr, f["lp"]))
    if f["rp"]:
        r["right_pad"] = "".join(map(chr, f["rp"]))
    return r


def spec_of(sp):
    return {pj.key_name(k): field(f, pj.key_name(k)) for k, f in zip(sp["k"], sp["v"])}


def value(v):
    return OTHER if v == [-1] else "".join(map(chr, v))


def doc_of(d, extra=()):
    r = {pj.key_name(k): value(v) for k, v in zip(d["k"], d["v"])}
    for x in extra:
        t = "".join(map(chr, x["v"]))
        r[t if x["t"] == "str" else int(t)] = "x"
    return r


GOOD = {"dec": {"doc": "dict", "enc": "dict", "raw": "NoneType"}, "enc": {"doc": "dict", "enc": "dict", "raw": "bytearray"}}


def agrees(op, o, want, text_doc=True):
    """does an observed outcome equal the specified one?"""
    if (o["k"], o["f"], o["pos"]) != (want["k"], want["f"], want["pos"]):
        return False
    # the list of offending keys is not specified
    if o["msg"] != want["msg"] and not (want["msg"].startswith("Dictionary contains") and o["msg"].startswith(want["msg"])):
        return False
    if o["dk"] != want["d"]["k"] or o["dv"] != want["d"]["v"]:
        return False
    if o["ek"] != want["ek"] or o["ed"] != want["ed"] or o["ex"] or not o["own"]:
        return False
    # the length prefix of the very field that is refused is nobody's business
    if [x for k, x in zip(o["ek"], o["el"]) if op == "dec" or k != o["f"]] != \
            [x for k, x in zip(want["ek"], want["el"]) if op == "dec" or k != want["f"]]:
        return False
    if want["k"] == "ok":
        if op == "enc" and o["raw"] != want["raw"]:
            return False
        ty = o["ty"]
        return (all(ty[n] == GOOD[op][n] for n in ("doc", "enc", "raw")) and ty["ek"] in ([], ["str"])
                and ty["ev"] in ([], ["dict(data:bytes,len:bytes)"])
                and (op == "enc" or (ty["dk"] in ([], ["str"]) and ty["dv"] in ([], ["str"]))))
    if op == "dec" and o["raw"] != want["raw"]:
        return False
    text = o["msg"] + ": field " + pj.key_name(o["f"]) + (" pos %d" % o["pos"] if op == "dec" else "")
    return o["txt"] == text


def replay_starter(tr, r, label):
    """the same under a specification as shipped"""
    import real
    name = {1: "default", 2: "default_ascii"}[r["sp"]["k"][0]]
    return replay_chain(tr, r, label, getattr(real.iso8583.specs, name), name)


ATTRIBUTES = {"ml": "max_len", "lt": "len_type", "de": "data_enc", "le": "len_enc", "nib": "len_count", "lp": "left_pad", "rp": "right_pad"}


def replay_custom(tr, r, label):
    """copy the specifications as shipped, adapt the copies, use them"""
    import copy
    import real
    s = tr.session(label)
    live = [real.iso8583.specs.default, real.iso8583.specs.default_ascii]
    # the same specifications, told in full before anything is adapted
    told = [json.loads(json.dumps(p)) for p in live]
    ok = True
    for e in r:
        i, key = e["i"] - 1, pj.key_name(e["key"])
        if e["a"] in ("deepcopy", "json"):
            live.append(copy.deepcopy(live[i]) if e["a"] == "deepcopy" else json.loads(json.dumps(live[i])))
            told.append(json.loads(json.dumps(told[i])))
        elif e["a"] == "use":
            doc = doc_of(e["d"])
            _, o, res, _ = s.enc(doc, live[i], st="own", means=told[i])
            w = e["out"]
            ok = ok and (o["k"], o["f"], o["raw"]) == (w["k"], w["f"], w["raw"])
            if res:
                _, o2, _, _ = s.dec(bytes(res[0]), live[i], st="own", means=told[i])
                ok = ok and o2["k"] == w["back"] and (not w["same"] or (o2["dk"], o2["dv"]) == (o["dk"], o["dv"]))
        else:
            for p in (live[i], told[i]):
                if e["a"] == "set":
                    v = e["n"]
                    if e["at"] in ("de", "le"):
                        v = codec_name(e["c"])
                    elif e["at"] == "nib":
                        v = "nibbles" if v else "bytes"
                    elif e["at"] in ("lp", "rp"):
                        v = chr(v)
                    p[key][ATTRIBUTES[e["at"]]] = v
                elif e["a"] == "put":
                    p[key] = {"data_enc": codec_name(e["at"]), "len_enc": codec_name(e["c"]), "len_type": e["n"] // 1000,
                              "max_len": e["n"] % 1000, "desc": "own"}
                else:
                    del p[key]
    return s, ok


def replay_chain(tr, r, label, spec=None, st=""):
    """drive the real library along a chain; -> (session, agreed)"""
    s = tr.session(label)
    spec = spec_of(r["sp"]) if spec is None else spec
    ok = True
    op, of = r["op"], 0
    arg = bytes(r["s"]) if op == "dec" else doc_of(r["d"], r["x"])
    for want in r["out"]:
        dx = want.get("x")
        if op == "dec":
            of, o, res, _ = s.dec(arg, spec, of=of, st=st)
            ok = ok and agrees(op, o, want) and not o["dx"]
        else:
            x = pj.doc(arg, given=True)["dx"]
            of, o, res, _ = s.enc(arg, spec, of=of, st=st)
            ok = ok and agrees(op, o, want) and o["dx"] == x
        if res is None:
            break
        arg = dict(res[0]) if op == "dec" else bytes(res[0])
        op = "enc" if op == "dec" else "dec"
    else:
        return s, ok
    return s, ok and want is r["out"][-1]


def replay_pretty(tr, r, label):
    """print a document in the ways pp can be called"""
    s = tr.session(label)
    spec = spec_of(r["sp"])
    d = r["d"]
    if d["b"]:
        doc = {pj.key_name(k): {"len": bytes(n), "data": bytes(v)} for k, n, v in zip(d["k"], d["l"], d["v"])}
    else:
        doc = {pj.key_name(k): value(v) for k, v in zip(d["k"], d["v"])}
    _, got = s.pp(doc, spec, r["dw"], r["lw"], ("stream", "write", "stdout")[(r["dw"] + r["lw"]) % 3])
    return s, got["k"] == "ok" and got["tx"] == r["tx"]


def way_of(name):
    import copy
    import pickle
    if name == "json":
        return lambda v: json.loads(json.dumps(v))
    if name.startswith("pickle-"):
        return lambda v: pickle.loads(pickle.dumps(v, int(name[7:])))
    return getattr(copy, name)


def replay_serial(tr, r, label):
    """send specification and outcome on their journeys"""
    import real
    import surface as sf
    s = tr.session(label)
    spec = spec_of(r["sp"])
    arrived = spec
    for w in r["specways"]:
        arrived = sf.attempt(lambda: way_of(w)(arrived))
    s.same("C20", spec, arrived if isinstance(arrived, dict) else repr(arrived), "spec-" + "-".join(r["specways"]))
    if r["op"] == "dec":
        arg = bytes(r["s"])
        s.same("C20", sf.dec_out(arg, spec), sf.dec_out(arg, arrived), "spec-decode")
        out = sf.attempt(lambda: real.iso8583.decode(arg, spec))
        thing = out[0] if isinstance(out, tuple) else out
    else:
        arg = doc_of(r["d"], r["x"])
        s.same("C20", sf.enc_out(dict(arg), spec), sf.enc_out(dict(arg), arrived), "spec-encode")
        d = dict(arg)
        out = sf.attempt(lambda: real.iso8583.encode(d, spec))
        thing = d if isinstance(out, tuple) else out
    got = thing
    for w in r["ways"]:
        got = sf.attempt(lambda: way_of(w)(got))
    name = "-".join(r["ways"])
    if isinstance(thing, dict):
        if not isinstance(got, dict):
            s.same("C20", "dict", repr(got), "doc-" + name)
        else:
            s.same("C20", pj.doc(thing), pj.doc(got), "doc-" + name)
            s.same("C20", sf.enc_out(dict(thing), spec), sf.enc_out(got, arrived), "doc-use-" + name)
    else:
        s.same("C20", sf.error_record(thing), sf.error_record(got), name)
    return s, all(e["a"] == e["b"] for e in s.ev) and (r["k"] == "ok") == isinstance(out, tuple)


def become(live, new):
    """edit a specification in place until it equals new"""
    for k in [k for k in live if k not in new]:
        del live[k]
    for k, f in new.items():
        if k in live:
            live[k].clear()
            live[k].update(f)
        else:
            live[k] = dict(f)


def same_object(lv, i, want, versions):
    o = lv.get(i)
    if want["t"] == "spec":
        return o == versions[want["v"] - 1]
    c = lv.content(i)
    if want["t"] == "doc":
        return isinstance(o, dict) and c["dk"] == want["d"]["k"] and c["dv"] == want["d"]["v"] and c["dx"] == want["x"]
    if want["t"] == "enc":
        return isinstance(o, dict) and c["ek"] == want["k"] and c["el"] == want["l"] and c["ed"] == want["v"] and not pj.enc(o)["ex"]
    return c["v"] == want["v"]


def replay_session(tr, r, label):
    """perform a caller's actions on live objects"""
    import objects
    versions = [spec_of(v) for v in r["sp"]]
    lv = objects.Live(tr, label)
    start = r["log"][0]["s"]
    lv.new("spec", spec_of(r["sp"][start[0]["v"] - 1]))
    lv.new("doc", doc_of(start[1]["d"], start[1]["x"]))
    lv.new("bytes", bytearray(start[2]["v"]))
    ok = True
    for step in r["log"][1:]:
        a = step["a"]
        i, k, v = a["i"], pj.key_name(a["k"]), a["v"]
        if i not in lv.obj:
            return lv.s, False
        o = lv.get(i)
        if a["a"] in ("dec", "enc"):
            (lv.decode if a["a"] == "dec" else lv.encode)(i, 1)
        else:
            n = a["k"]
            try:
                if a["a"] == "set":
                    o[k] = value(v)
                elif a["a"] in ("del", "delenc"):
                    del o[k]
                elif a["a"] in ("clear", "clearenc"):
                    o.clear()
                elif a["a"] == "setdata":
                    o[k]["data"] = bytes(v)
                elif a["a"] == "setlen":
                    o[k]["len"] = bytes(v)
                elif a["a"] == "append":
                    o += bytes(v)
                elif a["a"] == "byte":
                    o[n] = v[0]
                else:
                    become(o, versions[n - 1])
                    n = tr.specs.add(o)
            except (KeyError, IndexError, TypeError, AttributeError):
                return lv.s, False      # the object is not what it should be
            lv.edit(i, a["a"], n, v)
            lv.check()
        ok = ok and len(lv.obj) == len(step["s"]) and all(
            same_object(lv, j + 1, w, versions) for j, w in enumerate(step["s"]))
    return lv.s, ok


_lines = {}


def replay_sched(tr, r, label):
    """run two calls in threads under a schedule; a machine step stands for an
    equal share of the lines the library executes"""
    import copy
    import isolation
    key = json.dumps(r["c"])
    specs = {}
    calls = []
    shared = (sum(n for _, n in r["plan"]) + len(r["plan"])) % 2
    for i, c in enumerate(r["c"]):
        at = (c["n"], 0 if shared else i)
        if at not in specs:
            specs[at] = spec_of(r["sp"][c["n"] - 1])
        calls.append((c["op"], (bytes(c["s"]) if c["op"] == "dec" else doc_of(c["d"]), specs[at])))
    if key not in _lines:
        probe = isolation.Baton(copy.deepcopy(calls), [])
        probe.run()
        _lines[key] = probe.lines
    steps = [sum(n for t, n in r["plan"] if t == i + 1) for i in range(2)]
    pos, plan = [0, 0], []
    rng = random.Random(json.dumps(r["plan"]))
    for t, n in r["plan"]:
        t -= 1
        a = pos[t]
        pos[t] += n
        total = _lines[key][t]
        lo, hi = a * total // steps[t], pos[t] * total // steps[t]
        plan.append((t, max(1, hi - lo + rng.randint(-2, 2)) if pos[t] < steps[t] else 10 ** 6))
    frozen = copy.deepcopy(calls)
    b = isolation.Baton(calls, plan)
    done = b.run()
    s = tr.session(label)
    ok = done
    for (op, args), o, want in zip(frozen, b.outs, r["out"]):
        if o is None:
            o = {"k": "Hang"}
        s.add({"call": (op, args), "o": o})
        ok = ok and o.get("k", "").startswith("harness") is False and "dk" in o and agrees(op, o, want) and not o["dx"]
    return s, ok


def isolate(s):
    """turn the calls of a schedule into events, each with its outcome in a fresh process"""
    import isolation
    import real
    calls, s.ev = s.ev, []
    for c in calls:
        op, args = c["call"]
        o = c["o"] if c["o"]["k"] != "Hang" else real._blank("Hang")
        isolation.record(s, op, args, o)


REPLAY = {"serial": replay_serial, "chain": replay_chain, "starter": replay_starter, "custom": replay_custom, "pretty": replay_pretty, "session": replay_session, "sched": replay_sched}


def replay_part(args):
    kind, lines, seed, label, skip = args
    tr = trace.Tracer()
    rng = random.Random(seed)
    sample = set(rng.sample(range(len(lines)), min(len(lines), SAMPLE // 4)))
    keep, bad = [], 0
    for i, ln in enumerate(lines):
        r = json.loads(json.loads(ln))
        s, ok = REPLAY[kind](tr, r, label)
        if ok and i not in sample:
            tr.sessions.pop()
        elif not ok:
            bad += 1
            if bad > KEEP // 4:
                tr.sessions.pop()
    return len(lines), bad, [s.ev for s in tr.sessions], tr.specs.rows, tr.specs.src


def merge(tr, part, label):
    _, _, evs, rows, src = part
    at = {}
    for ev in evs:
        s = tr.session(label)
        for e in ev:
            if "sp" in e:
                i = e["sp"]
                if i not in at:
                    if src[i - 1] not in tr.specs.index:
                        tr.specs.rows.append(rows[i - 1])
                        tr.specs.src.append(src[i - 1])
                        tr.specs.index[src[i - 1]] = len(tr.specs.rows)
                    at[i] = tr.specs.index[src[i - 1]]
                e["sp"] = at[i]
            s.ev.append(e)


def explore(name, env, seed, timeout=900):
    """-> finished behaviours printed by TLC, figures"""
    rc, out, wall = tlc.run(name, env={k: str(v) for k, v in env.items()}, args=("-seed", str(seed)), timeout=timeout, heap="10g")
    c = tlc.counts(out)
    if rc != 0 or c is None or c[2] != 0:
        raise tlc.Machinery("model %s failed (rc %s)\n%s" % (name, rc, "\n".join(tlc.errors(out))[:3000]))
    lines = RESULT.findall(out)
    return lines, {"name": name, "sizes": env, "states": c[1], "transitions": c[0], "tlc_s": round(wall, 1)}


def run(name, run, tier, env, seed=None):
    """explore model name with the given sizes, replay, judge the differences"""
    kind = MODELS[name]
    lines, row = explore(name, env, run.seed if seed is None else seed)
    if not lines:
        raise tlc.Machinery("model %s printed no behaviour" % name)
    t0 = time.time()
    # equal shares; neighbours in TLC's output have the same specification
    n = 8
    size = (len(lines) + n - 1) // n
    parts = [(kind, lines[i:i + size], "%s-%d" % (run.seed, i), name, 0) for i in range(0, len(lines), size)]
    with multiprocessing.get_context("fork").Pool(len(parts)) as pool:
        got = pool.map(replay_part, parts)
    tr = trace.Tracer()
    for g in got:
        merge(tr, g, name)
    if kind == "sched":
        for ses in tr.sessions:
            isolate(ses)
    row.update(behaviours_replayed=sum(g[0] for g in got), behaviours_differing=sum(g[1] for g in got),
               replay_s=round(time.time() - t0, 1))
    run.models.append(row)
    run.judge(tr)


MODELS = {"MC_Field": "chain", "MC_Message": "chain", "MC_Bitmap": "chain", "MC_Serial": "serial", "MC_Starter": "starter", "MC_Custom": "custom", "MC_Pretty": "pretty", "MC_Session": "session", "MC_Sched": "sched"}
