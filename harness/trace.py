"""Recording sessions and validating them with Trace.tla."""
import hashlib
import json
import os
import shutil
import time

import gen
import project as pj
import real
import tlc


def canonical(v, limit=4000):
    t = json.dumps(v, sort_keys=True)
    return t if len(t) <= limit else t[:limit // 2] + " sha256 " + hashlib.sha256(t.encode()).hexdigest()


class Session:
    """one recorded session; every recorder call returns what the caller needs"""

    def __init__(self, tr, label=""):
        self.tr = tr
        self.ev = []
        self.label = label

    def add(self, e):
        self.ev.append(e)
        return len(self.ev)

    def dec(self, s, spec, of=0, st="", iso=None, ids=(0, 0, 0), means=None):
        sp = self.tr.specs.add(spec if means is None else means)
        before = list(s)
        if type(s) is bytes and ids == (0, 0, 0) and not st and iso is None and (len(s) + len(self.tr.sessions)) % 3 == 0:
            # the type of the buffer makes no difference
            s = (bytearray, bytearray, bytearray, gen.Buffer, gen.Array)[len(self.tr.sessions) % 5](s)
        o, res, exc = real.decode(s, spec)
        i = self.add({"op": "dec", "sp": sp, "s": before, "st": st, "of": of, "ids": list(ids),
                      "iso": [iso] if iso is not None else [], "o": o})
        return i, o, res, exc

    def enc(self, d, spec, of=0, st="", iso=None, ids=(0, 0, 0), means=None):
        sp = self.tr.specs.add(spec if means is None else means)
        before = pj.doc(d, given=True)
        o, res, exc = real.encode(d, spec)
        i = self.add({"op": "enc", "sp": sp, "dk": before["dk"], "dv": before["dv"], "x": before["dx"], "st": st,
                      "of": of, "ids": list(ids), "iso": [iso] if iso is not None else [], "o": o})
        return i, o, res, exc

    def pp(self, doc, spec, dw=30, lw=80, how="stream", iso=None):
        sp = self.tr.specs.add(spec)
        isenc = any(isinstance(v, dict) for v in doc.values())
        e = {"op": "pp", "sp": sp, "enc": isenc, "dw": int(dw), "lw": int(lw),
             "iso": [iso] if iso is not None else [],
             "dk": [], "dv": [], "ek": [], "el": [], "ed": []}
        if isenc:
            e.update({k: v for k, v in pj.enc(doc).items() if k != "ex"})
        else:
            e.update({k: v for k, v in pj.doc(doc).items() if k != "dx"})
        r = real.pp(doc, spec, dw, lw, how)
        e.update(r)
        return self.add(e), r

    def same(self, p, a, b, what):
        """observations are equal exactly when their canonical texts are"""
        return self.add({"op": "same", "p": p, "a": canonical(a), "b": canonical(b), "what": what})

    def wrong(self, p, k, arg):
        return self.add({"op": "wrong", "p": p, "k": k, "arg": arg})

    def table(self, name, spec, json_ok, other):
        return self.add({"op": "table", "name": name, "sp": self.tr.specs.add(spec), "json": json_ok, "other": other})

    # objects (C14)
    def new(self, i, c):
        return self.add({"op": "new", "id": i, "c": c})

    def edit(self, i, w, k=0, v=()):
        return self.add({"op": "edit", "id": i, "w": w, "k": k, "v": list(v)})

    def chk(self, objs):
        return self.add({"op": "chk", "objs": objs})


class Tracer:
    def __init__(self):
        self.specs = pj.SpecTable()
        self.sessions = []
        self.turn = 0

    def session(self, label=""):
        s = Session(self, label)
        self.sessions.append(s)
        return s


class Result:
    def __init__(self):
        self.sessions = self.events = self.judged = self.states = self.transitions = 0
        self.bad = []       # (session, bad clauses)
        self.tlc_s = 0.0
        self.seen = set()   # digests of judged sessions

    def add(self, o):
        self.sessions += o.sessions
        self.events += o.events
        self.judged += o.judged
        self.states += o.states
        self.transitions += o.transitions
        self.tlc_s += o.tlc_s
        self.bad += o.bad


def validate(prop, tr, keep=None):
    """run Trace.tla over the recorded sessions"""
    sess = [s for s in tr.sessions if s.ev]
    res = Result()
    if not sess:
        return res
    d = tlc.scratch()
    path = os.path.join(d, "trace.json")
    with open(path, "w") as f:
        json.dump({"specs": tr.specs.rows, "sessions": [s.ev for s in sess]}, f, separators=(",", ":"))
    try:
        rc, out, wall = tlc.run("Trace", env={"PROP": prop, "TRACE": path})
    finally:
        if keep:
            shutil.copy(path, keep)
        shutil.rmtree(d, ignore_errors=True)
    want = sum(len(s.ev) + 1 for s in sess)
    c = tlc.counts(out)
    if rc != 0 or c is None or c[1] != want or c[2] != 0:
        tail = tlc.errors(out)
        raise tlc.Machinery("trace validation failed (rc %s, states %s, expected %d)\n%s"
                            % (rc, c, want, "\n".join(tail)))
    rows = tlc.printed(out, "S")
    seen = {r[0]: r for r in rows}
    if len(seen) != len(sess):
        raise tlc.Machinery("TLC reported %d of %d sessions" % (len(seen), len(sess)))
    res.sessions = len(sess)
    res.events = sum(len(s.ev) for s in sess)
    res.transitions, res.states = c[0] - len(sess), c[1]
    res.tlc_s = wall
    for sid, n, bad in rows:
        res.judged += n
        if bad:
            res.bad.append((sess[sid - 1], bad))
    res.bad.sort(key=lambda b: len(json.dumps(b[0].ev)))
    return res
