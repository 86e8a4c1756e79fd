"""Driver: live objects of a caller, calls on them and edits of them (C14)."""
import copy
import random

import gen
import project as pj
import real
import surface
from drivers import spoil, prefix_candidates
from gen import fs, base, rand_spec, rand_doc, field_set, good_value, build, join


class Live:
    """the caller's live objects, mirrored as events"""

    def __init__(self, tr, label):
        self.s = tr.session(label)
        self.obj = {}       # id -> (kind, object)
        self.next = 1

    def _id(self, kind, o):
        i = self.next
        self.next += 1
        self.obj[i] = (kind, o)
        return i

    def content(self, i):
        kind, o = self.obj[i]
        if kind == "doc":
            return dict(t="doc", **pj.doc(o))
        if kind == "enc":
            return {"t": "enc", **{k: v for k, v in pj.enc(o).items() if k != "ex"}}
        if kind == "bytes":
            return {"t": "bytes", "v": pj.octets(o)}
        return {"t": "spec", "v": self.s.tr.specs.add(o)}

    def new(self, kind, o):
        i = self._id(kind, o)
        self.s.new(i, self.content(i))
        return i

    def check(self):
        self.s.chk([{"id": i, "c": self.content(i)} for i in sorted(self.obj)])

    def get(self, i):
        return self.obj[i][1]

    def ids(self, kind):
        return [i for i, (k, _) in self.obj.items() if k == kind]

    # calls
    def decode(self, b, sp):
        rd, re = self.next, self.next + 1
        _, o, r, e = self.s.dec(self.get(b), self.get(sp), ids=(0, rd, re))
        d, en = r if r else (getattr(e, "doc_dec", None), getattr(e, "doc_enc", None))
        self._id("doc", d)
        self._id("enc", en)
        self.check()
        return r is not None

    def encode(self, d, sp):
        rr, re = self.next, self.next + 1
        _, o, r, e = self.s.enc(self.get(d), self.get(sp), ids=(d, rr, re))
        raw, en = r if r else (bytearray(), getattr(e, "doc_enc", None))
        self._id("bytes", raw)
        self._id("enc", en)
        self.check()
        return r is not None

    def pp(self, i, sp, dw=10, lw=30):
        kind, o = self.obj[i]
        self.s.pp(o, self.get(sp), dw, lw)
        self.check()

    # edits
    def edit(self, i, w, k=0, v=()):
        self.s.edit(i, w, k, v)

    def random_edit(self, rng, i):
        kind, o = self.obj[i]
        if kind == "doc" and isinstance(o, dict):
            ks = [k for k in o if pj.key_id(k) is not None]
            c = rng.random()
            if c < 0.1:
                o.clear()
                self.edit(i, "clear")
            elif c < 0.3 and ks:
                k = rng.choice(ks)
                del o[k]
                self.edit(i, "del", pj.key_id(k))
            else:
                k = rng.choice(ks + [str(rng.randint(1, 192)), "h", "t", "p", "1", "65"])
                o[k] = rng.choice(["CHANGED", "", "0", "1234", "FFFFFFFFFFFFFFFF"])
                self.edit(i, "set", pj.key_id(k), pj.text(o[k]))
        elif kind == "enc" and isinstance(o, dict):
            ks = [k for k in o if pj.key_id(k) is not None]
            if not ks:
                return
            c = rng.random()
            k = rng.choice(ks + [j for j in ks if j in "htp"])
            if c < 0.1:
                o.clear()
                self.edit(i, "clearenc")
            elif c < 0.25:
                del o[k]
                self.edit(i, "delenc", pj.key_id(k))
            elif c < 0.7:
                o[k]["data"] = rng.choice([b"", b"changed", b"\0"])
                self.edit(i, "setdata", pj.key_id(k), list(o[k]["data"]))
            else:
                o[k]["len"] = rng.choice([b"", b"99", b"\x07"])
                self.edit(i, "setlen", pj.key_id(k), list(o[k]["len"]))
        elif kind == "bytes" and isinstance(o, bytearray):
            if o and rng.random() < 0.7:
                j = rng.randrange(len(o))
                o[j] ^= rng.choice([1, 0x80, 0xff])
                self.edit(i, "byte", j, [o[j]])
            else:
                o += b"\x30"
                self.edit(i, "append", 0, [0x30])
        elif kind == "spec":
            ks = [k for k in o if k not in ("h", "t", "p", "1")] or ["h"]
            k = rng.choice(ks)
            c = rng.random()
            if c < 0.5:
                o[k]["max_len"] = rng.choice([0, 1, 3, 7, 20])
            elif c < 0.7:
                o[k] = fs("ascii", "ascii", 2, 30)
            elif c < 0.85:
                o[k]["desc"] = rng.choice(["", "changed", "x" * 50])
            else:
                o[k]["data_enc"] = rng.choice(["ascii", "cp500", "b"])
            self.edit(i, "spec", self.s.tr.specs.add(o))


def objects(rng, tr, n, steps=14):
    """random calls on and edits of a growing set of live objects"""
    done = 0
    while done < n:
        lv = Live(tr, "objects")
        alike = rng.random() < 0.25 or None
        fl = field_set(rng, rng.choice([1, 2, 4, 6] if not alike else [2, 3, 6]))
        if rng.random() < 0.12:
            fl = sorted(rng.sample(range(2, 65), rng.choice([18, 25, 40])))
        sp = rand_spec(rng, fl, alike=alike)
        for k in sp:
            sp[k].setdefault("desc", "d")
            if rng.random() < 0.3:
                sp[k]["desc"] = rng.choice(["", " ", "d" * 70, " lead", "trail ", "tab\tinside\n", "wide \u4e2d\u6587 \u0301", "x" * 200, "MiXeD Case"])
        specs = [lv.new("spec", sp)]
        d = rand_doc(rng, sp, fl, alike=alike)
        if rng.random() < 0.5:
            for k in rng.sample(surface.IGNORED, 2):
                d[k] = rng.choice(["x", None, 5])
        if rng.random() < 0.3 and fl:
            k = str(rng.choice(fl))
            d[k] = spoil(rng, sp[k])
        if rng.random() < 0.1:
            d[rng.choice([5, None, "0", "193", "02"])] = "x"
        docs = [lv.new("doc", d)]
        try:
            w = join(build(sp, rand_doc(rng, sp, fl, alike=alike)))
        except Exception:
            w = b"0200" + bytes(8)
        if rng.random() < 0.3:
            w = w[:rng.randrange(len(w) + 1)]
        bufs = [lv.new("bytes", bytearray(w)), lv.new("bytes", w)]
        for _ in range(rng.randint(5, steps)):
            c = rng.random()
            if c < 0.25:
                lv.decode(rng.choice(lv.ids("bytes")), specs[0])
            elif c < 0.5:
                i = rng.choice([j for j in lv.ids("doc") if isinstance(lv.get(j), dict)])
                lv.encode(i, specs[0])
            elif c < 0.58:
                i = rng.choice(lv.ids("doc") + lv.ids("enc"))
                o = lv.get(i)
                if isinstance(o, dict) and all(isinstance(k, str) and k in sp for k in o if isinstance(k, str) and k.isnumeric()):
                    lv.pp(i, specs[0], rng.choice([0, 1, 5, 30, 60, 120]), rng.choice([1, 10, 40, 80]))
            else:
                i = rng.choice(list(lv.obj))
                lv.random_edit(rng, i)
                if rng.random() < 0.5:
                    lv.check()
            done += 1
        lv.check()


def directed(rng, tr, n):
    """the same call twice, every result edited everywhere in between"""
    for _ in range(n):
        lv = Live(tr, "twice")
        alike = rng.random() < 0.4 or None
        fl = field_set(rng, rng.choice([1, 2, 5]))
        sp = rand_spec(rng, fl, alike=alike)
        isp = lv.new("spec", sp)
        d = rand_doc(rng, sp, fl, alike=alike)
        if rng.random() < 0.25 and fl:
            k = str(rng.choice(fl))
            d[k] = spoil(rng, sp[k])
        for _ in range(2):
            i = lv.new("doc", dict(d))
            lv.encode(i, isp)
        raws = [j for j in lv.ids("bytes")]
        lv.random_edit(rng, raws[0])
        lv.check()
        encs = lv.ids("enc")
        for k in list(lv.get(encs[0]) or ()):
            if pj.key_id(k) is not None and rng.random() < 0.6:
                lv.get(encs[0])[k]["data"] = b"changed"
                lv.edit(encs[0], "setdata", pj.key_id(k), list(b"changed"))
        lv.check()
        try:
            w = join(build(sp, d))
        except Exception:
            w = b"0200" + bytes(8) + b"x"
        if rng.random() < 0.4:
            w = w[:rng.randrange(len(w) + 1)]
        b1, b2 = lv.new("bytes", bytearray(w)), lv.new("bytes", bytearray(w))
        lv.decode(b1, isp)
        lv.decode(b2, isp)
        for _ in range(3):
            lv.random_edit(rng, b1)
        lv.check()
        for i in [lv.ids("doc")[-2], lv.ids("enc")[-2]]:
            o = lv.get(i)
            for k in list(o or ()):
                if pj.key_id(k) is None or rng.random() < 0.4:
                    continue
                if lv.obj[i][0] == "doc":
                    o[k] = "CHANGED"
                    lv.edit(i, "set", pj.key_id(k), pj.text("CHANGED"))
                else:
                    o[k]["len"] = b"zz"
                    lv.edit(i, "setlen", pj.key_id(k), list(b"zz"))
        lv.check()
        lv.random_edit(rng, isp)
        lv.check()
        lv.decode(b2, isp)
        lv.encode(lv.new("doc", dict(d)), isp)


def shown(rng, tr, n):
    """documents of every kind stay as they are when they are printed"""
    for _ in range(n):
        lv = Live(tr, "shown")
        d, sp = surface.pp_doc(rng, tr)
        isenc = any(isinstance(v, dict) for v in d.values())
        if not d or not all(isinstance(v, dict if isenc else str) for v in d.values()):
            continue
        isp = lv.new("spec", sp)
        i = lv.new("enc" if isenc else "doc", d)
        for _ in range(2):
            lv.pp(i, isp, rng.choice([0, 10, 30]), rng.choice([60, 80, 100]))


def starter_intact(rng, tr, n):
    """the shipped specifications stay as they are"""
    for name, spec in surface.starters():
        lv = Live(tr, "starter-intact")
        isp = lv.new("spec", spec)
        for _ in range(max(2, n // 60)):
            nums = [k for k in range(2, 129) if k != 65 and str(k) in spec]
            fl = rng.sample(nums, 6)
            d = {"t": "0200"}
            for k in fl:
                d[str(k)] = good_value(rng, spec[str(k)])
            i = lv.new("doc", d)
            lv.encode(i, isp)
            lv.decode(lv.ids("bytes")[-1], isp)
            lv.pp(i, isp)
