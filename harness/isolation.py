"""Drivers for C15: histories, nested calls and threads.

Every recorded call carries the outcome of the same call made alone in a fresh
process.
"""
import codecs
import copy
import gc
import io
import os
import random
import sys
import threading

import gen
import project as pj
import real
from drivers import spoil, prefix_candidates, bitmap_bytes
from gen import fs, base, rand_spec, rand_doc, field_set, good_value, build, join
from zygote import Zygote

HOOK = [None]       # what the nested codec, stream or mapping does, once


def fire():
    f, HOOK[0] = HOOK[0], None
    if f is not None:
        f()


def _nest(name):
    if name != "vpinest":
        return None
    a = codecs.lookup("ascii")

    def enc(x, errors="strict"):
        fire()
        return a.encode(x, errors)

    def dec(x, errors="strict"):
        fire()
        return a.decode(x, errors)
    return codecs.CodecInfo(enc, dec, name="vpinest")


codecs.register(_nest)

KNOWN = set()       # names of text encodings that have been made known by now


def _late(name):
    return codecs.lookup("ascii") if name in KNOWN else None


codecs.register(_late)

_zyg = [None]


def zyg():
    if _zyg[0] is None:
        raise RuntimeError("no zygote")
    return _zyg[0]


def start():
    """must run before the first call of the library"""
    if _zyg[0] is None:
        _zyg[0] = Zygote()


def stop():
    if _zyg[0] is not None:
        _zyg[0].close()
        _zyg[0] = None


def plain(spec):
    return {k: dict(spec[k]) for k in spec}


def record(s, op, args, out):
    """append the event of a call made elsewhere (thread, nested): out is its outcome"""
    sp = s.tr.specs.add(args[1])
    if op == "dec":
        s.add({"op": "dec", "sp": sp, "s": list(args[0]), "st": "", "of": 0, "ids": [0, 0, 0], "iso": [zyg()("dec", args[0], args[1])], "o": out})
    elif op == "enc":
        b = pj.doc(args[0])
        s.add({"op": "enc", "sp": sp, "dk": b["dk"], "dv": b["dv"], "x": b["dx"], "st": "", "of": 0, "ids": [0, 0, 0],
               "iso": [zyg()("enc", args[0], args[1])], "o": out})
    else:
        doc, spec, dw, lw = args[:4]
        isenc = any(isinstance(v, dict) for v in doc.values())
        e = {"op": "pp", "sp": sp, "enc": isenc, "dw": dw, "lw": lw, "iso": [zyg()("pp", doc, spec, dw, lw)],
             "dk": [], "dv": [], "ek": [], "el": [], "ed": []}
        e.update({k: v for k, v in (pj.enc(doc) if isenc else pj.doc(doc)).items() if k not in ("ex", "dx")})
        e.update(out)
        s.add(e)


def perform(op, args):
    if op == "dec":
        return real.decode(*args)[0]
    if op == "enc":
        return real.encode(*args)[0]
    return real.pp(*args)


def call(s, op, *args):
    """one call of a history; -> outcome"""
    frozen = copy.deepcopy(args)
    out = perform(op, args)
    record(s, op, frozen, out)
    return out


# -- histories -----------------------------------------------------------------

def edit_spec(rng, sp):
    """in place, so that the same objects mean something else afterwards"""
    ks = [k for k in sp if k not in ("h", "t", "p", "1")] or ["h"]
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(ks)
        f = sp[k]
        c = rng.random()
        if c < 0.2:
            f["max_len"] = max(0, f["max_len"] + rng.choice([-1, 1, 5, -3]))
        elif c < 0.35:
            f["data_enc"] = rng.choice(["ascii", "b", "cp500", "latin-1"])
        elif c < 0.5:
            f["len_enc"] = rng.choice(["ascii", "b", "bcd", "cp500"])
        elif c < 0.6:
            f["len_type"] = rng.choice([0, 1, 2, 3])
        elif c < 0.7:
            f["len_count"] = rng.choice(["bytes", "nibbles"])
        elif c < 0.78:
            f[rng.choice(["left_pad", "right_pad"])] = rng.choice(["0", "F", "A", ""])
        elif c < 0.84:
            f["desc"] = rng.choice(["changed", "", "a long description of this field"])
        elif c < 0.9:
            sp[k] = gen.rand_fs(rng)
            sp[k]["desc"] = "new"
        elif c < 0.94:
            sp["p"]["data_enc"] = rng.choice(["b", "ascii", "cp500"])
            sp["1"]["data_enc"] = rng.choice(["b", "ascii"])
        elif c < 0.97:
            sp["t"]["data_enc"] = rng.choice(["b", "ascii"])
        else:
            sp["h"]["max_len"] = rng.choice([0, 2, 4])


def histories(rng, tr, n):
    done = 0
    while done < n:
        s = tr.session("history")
        fl = field_set(rng, rng.choice([1, 2, 3]))
        specs = [rand_spec(rng, fl) for _ in range(2)]
        specs.append({k: dict(v) for k, v in specs[0].items()})
        specs.append(dict(specs[0], t=specs[1]["t"], p=specs[1]["p"]))
        for sp in specs:
            sp["1"] = dict(sp["p"], desc="Bitmap, Secondary")
        docs = [rand_doc(rng, specs[0], fl), rand_doc(rng, specs[1], fl)]
        docs.append(dict(docs[0]))
        wires = []
        for sp, d in zip(specs, docs):
            try:
                wires.append(join(build(sp, d)))
            except Exception:
                pass
        wires += [w[:-1] for w in wires] + [w + b"0" for w in wires] + [b"", b"0200" + bytes(8)]
        bufs = [bytearray(w) for w in wires]
        for _ in range(rng.randint(6, 14)):
            sp = rng.choice(specs)
            c = rng.random()
            if c < 0.35:
                call(s, "dec", rng.choice(wires + bufs), sp)
            elif c < 0.7:
                d = rng.choice(docs)
                if rng.random() < 0.3:
                    k = str(rng.choice(fl))
                    d[k] = spoil(rng, sp[k]) if rng.random() < 0.5 else good_value(rng, sp[k])
                elif rng.random() < 0.2:
                    d.pop(str(rng.choice(fl)), None)
                o = call(s, "enc", d, sp)
                if o["k"] == "ok":
                    wires.append(bytes(o["raw"]))
            elif c < 0.82:
                d = rng.choice(docs)
                if all(k in sp for k in d if isinstance(k, str) and k.isnumeric()):
                    call(s, "pp", d, sp, rng.choice([0, 5, 30]), rng.choice([20, 40, 80]), rng.choice(["stream", "stdout", "write"]))
            elif c < 0.92:
                edit_spec(rng, sp)
            else:
                b = rng.choice(bufs)
                if b:
                    b[rng.randrange(len(b))] ^= rng.choice([1, 0xff])
            done += 1


def edited(rng, tr, n):
    """a call, the specification edited in place, the same call again"""
    for _ in range(n):
        s = tr.session("edited-spec")
        fl = field_set(rng, rng.choice([1, 2, 3]))
        sp = rand_spec(rng, fl)
        d = rand_doc(rng, sp, fl)
        try:
            w = join(build(sp, d))
        except Exception:
            continue
        for _ in range(3):
            call(s, "enc", dict(d), sp)
            call(s, "dec", w, sp)
            call(s, "pp", d, sp, 20, 40, "stream")
            edit_spec(rng, sp)


def silent(op, args):
    try:
        if op == "pp":
            real.iso8583.pp(args[0], args[1], args[2], io.StringIO(), args[3])
        else:
            getattr(real.iso8583, {"dec": "decode", "enc": "encode"}[op])(args[0], args[1])
    except Exception:
        pass


def storms(rng, tr, n):
    """very many calls, all alike or all different, and then a few others"""
    for _ in range(n):
        s = tr.session("storm")
        fl = field_set(rng, rng.choice([1, 2]))
        calls = []
        while len(calls) < 3:
            c = some_call(rng, fl if rng.random() < 0.7 else None)
            if c[0] != "pp" or all(k in c[1][1] for k in c[1][0] if k.isnumeric()):
                calls.append(c)
        many = rng.choice([20, 50, 150, 300, 600])
        if rng.random() < 0.6:
            first = calls[0]
            frozen = copy.deepcopy(first)
            for _ in range(many):
                silent(first[0], first[1] if first[0] == "dec" else (dict(first[1][0]),) + first[1][1:])
            again = [frozen]
        else:
            sp = rand_spec(rng, fl)
            again = []
            for i in range(many):
                d = rand_doc(rng, sp, fl, stale=0)
                if rng.random() < 0.5:
                    c = ("enc", (d, sp))
                else:
                    try:
                        c = ("dec", (join(build(sp, d)), sp))
                    except Exception:
                        c = ("enc", (d, sp))
                if i < 2 or i in (many // 2, many - 1):
                    again.append(copy.deepcopy(c))
                silent(*c)
        for op, args in again + calls[1:] + again[:1]:
            call(s, op, *copy.deepcopy(args))


def twins(rng, tr, n):
    """the same dictionary or bytes under two specifications that differ in one attribute"""
    for _ in range(n):
        s = tr.session("twins")
        fl = field_set(rng, rng.choice([1, 1, 2]))
        a = gen.base(None, rng.choice(["ascii", "b"]), rng.choice(["b", "ascii"]))
        d = {"t": "0200"}
        for k in fl:
            f = fs(rng.choice(gen.ALLTEXT + ["b", "b"]), rng.choice(["ascii", "b", "bcd", "cp500"]), 3, 900, rng.random() < 0.5,
                   rng.choice(["0", None]), rng.choice(["F", None]), desc="twin")
            a[str(k)] = f
            size = rng.choice([0, 1, 2, 3, 4, 7, 8, 10, 16, 17, 20, 31, 32, 40, 64, 65, 100, 256])
            d[str(k)] = gen.rand_hex(rng, size) if rng.random() < 0.7 else "0" * size
        b = {k: dict(v) for k, v in a.items()}
        f = b[str(rng.choice(fl))]
        c = rng.random()
        if c < 0.35:
            m = rng.choice([x for x in gen.ALLTEXT + ["b"] if x != gen.model_codec(f["data_enc"])])
            f["data_enc"] = gen.ALIASES[m][0] if m != "b" else "b"
        elif c < 0.5:
            f["len_enc"] = rng.choice([x for x in ("ascii", "b", "bcd", "cp500") if x != f["len_enc"]])
        elif c < 0.6:
            f["len_type"] = rng.choice([0, 1, 2, 4])
        elif c < 0.7:
            f["len_count"] = "bytes" if f.get("len_count") == "nibbles" else "nibbles"
        elif c < 0.85:
            f[rng.choice(["left_pad", "right_pad"])] = rng.choice(["", "1", "A"])
        elif c < 0.95:
            f["max_len"] = rng.choice([0, 1, 2, 15, 30, 901])
        else:
            f["desc"] = "other"
        both = [a, b]
        rng.shuffle(both)
        wires = []
        for sp in both + both[:1]:
            o = call(s, "enc", dict(d), sp)
            if o["k"] == "ok":
                wires.append(bytes(o["raw"]))
        for w in wires[:2]:
            for sp in both + both[:1]:
                call(s, "dec", w, sp)
        for sp in both:
            call(s, "pp", dict(d), sp, 8, 30, "stream")


def readdressed(rng, tr, n):
    """specifications and dictionaries that come and go at the same addresses"""
    for _ in range(n):
        s = tr.session("readdressed")
        fl = field_set(rng, rng.choice([1, 2]))
        for _ in range(5):
            sp = rand_spec(rng, fl)
            d = rand_doc(rng, sp, fl)
            try:
                w = join(build(sp, d))
            except Exception:
                w = b"0200" + bytes(8)
            call(s, "dec", w, sp)
            call(s, "enc", d, sp)
            del sp, d
            gc.collect(0)


def after_failure(rng, tr, n):
    """a failing call of every kind, then an ordinary one"""
    for _ in range(n):
        s = tr.session("after-failure")
        fl = field_set(rng, rng.choice([2, 3, 5]))
        sp = rand_spec(rng, fl)
        good = rand_doc(rng, sp, fl)
        try:
            w = join(build(sp, good))
            encd = real.iso8583.encode(dict(good), sp)[1]
        except Exception:
            continue
        for _ in range(3):
            c = rng.random()
            if c < 0.3:
                call(s, "dec", w[:rng.randrange(len(w))], sp)
            elif c < 0.45:
                b = bytearray(w)
                b[rng.randrange(len(b))] ^= 0xff
                call(s, "dec", bytes(b), sp)
            elif c < 0.7:
                bad = dict(good)
                k = str(rng.choice(fl))
                bad[k] = spoil(rng, sp[k])
                call(s, "enc", bad, sp)
            elif c < 0.8:
                bad = dict(good)
                bad[rng.choice(["193", "0", "02"])] = "x"
                call(s, "enc", bad, sp)
            elif c < 0.9:
                try:
                    real.iso8583.decode("text", sp)
                except Exception:
                    pass
            else:
                class Broken:
                    def __init__(self, left):
                        self.left = left

                    def write(self, x):
                        self.left -= 1
                        if self.left < 0:
                            raise OSError("broken pipe")
                try:
                    real.iso8583.pp(rng.choice([good, encd]), sp, rng.choice([0, 10, 30]), Broken(rng.randrange(rng.choice([6, 12, 30]))),
                                    rng.choice([1, 10, 20, 30, 80]))
                except Exception:
                    pass
                for _ in range(2):
                    call(s, "pp", rng.choice([good, encd]), sp, 10, rng.choice([12, 25, 40]), "stream")
            c = rng.random()
            if c < 0.4:
                call(s, "dec", w, sp)
            elif c < 0.8:
                call(s, "enc", dict(good), sp)
            else:
                call(s, "pp", rng.choice([good, encd]), sp, 10, rng.choice([15, 40]), "stream")


def latecomers(rng, tr, n):
    """a text encoding that is asked for in vain before it is made known"""
    for i in range(n):
        name = "vpilate%d" % i
        s = tr.session("latecomer")
        fl = field_set(rng, rng.choice([1, 2, 3]))
        sp = rand_spec(rng, fl)
        d = rand_doc(rng, sp, fl)
        k = str(rng.choice(fl))
        sp[k] = fs("ascii", "ascii", 2, 20)
        d[k] = "LATE" + k
        f = rng.choice([k, k, k, "t", "p", "1", "h"])
        what = rng.choice(["data_enc", "len_enc"]) if f == k else "data_enc"
        if f == "h":
            sp["h"] = fs("ascii", "ascii", 0, 4)
            d["h"] = "HEAD"
        elif f == "t":
            sp["t"] = fs("ascii", "ascii", 0, 4)
            d["t"] = "0200"
        elif f != k:
            sp[f] = fs("ascii", "ascii", 0, 16)
        flat = copy.deepcopy(sp)
        sp[f][what] = name
        try:
            w = join(build(flat, d))
        except Exception:
            continue
        for _ in range(rng.choice([1, 1, 2])):
            silent("dec", (w, sp))
            silent("enc", (dict(d), sp))
        KNOWN.add(name)
        for op, x in (("dec", w), ("enc", d)):
            x = copy.deepcopy(x)
            out = perform(op, (copy.deepcopy(x), sp))
            record(s, op, (x, flat), out)


# -- nested calls ------------------------------------------------------------------

def some_call(rng, fl=None):
    """(op, args) of a call, good or failing"""
    fl = fl or field_set(rng, rng.choice([1, 2, 4]))
    sp = rand_spec(rng, fl)
    d = rand_doc(rng, sp, fl)
    op = rng.choice(["dec", "dec", "enc", "enc", "pp"])
    if op == "dec":
        try:
            w = join(build(sp, d))
        except Exception:
            w = b"0200" + bytes(8)
        if rng.random() < 0.25:
            w = w[:rng.randrange(len(w) + 1)]
        return "dec", (w, sp)
    if rng.random() < 0.2 and op == "enc":
        k = str(rng.choice(fl))
        d[k] = spoil(rng, sp[k])
    if op == "enc":
        return "enc", (d, sp)
    if rng.random() < 0.5:
        try:
            en = real.iso8583.encode(dict(d), sp)[1]
            return "pp", (en, sp, rng.choice([0, 10]), rng.choice([20, 40, 80]))
        except Exception:
            pass
    return "pp", (d, sp, rng.choice([0, 10]), rng.choice([20, 40, 80]))


class NestStream(io.StringIO):
    at = 0

    def write(self, x):
        self.at -= 1
        if self.at == 0:
            fire()
        return super().write(x)


def nested(rng, tr, n):
    """calls made from within a call: from a codec, or from the stream printed to"""
    for _ in range(n):
        s = tr.session("nested")
        inner = some_call(rng)
        frozen = copy.deepcopy(inner)
        got = []

        def hook():
            got.append(perform(*inner))
        fl = field_set(rng, rng.choice([1, 2, 3]))
        sp = rand_spec(rng, fl)
        d = rand_doc(rng, sp, fl)
        where = rng.choice(fl)
        what = rng.choice(["dec", "enc", "pp"])
        f = fs("ascii", "ascii", 2, 20, desc="nest")
        f[rng.choice(["data_enc", "len_enc"])] = "vpinest"
        c = rng.random()
        if c < 0.1:
            sp["p"] = fs("ascii", "ascii", 0, 16)
            sp["p"]["data_enc"] = "vpinest"
        elif c < 0.2:
            sp["1"] = fs("ascii", "ascii", 0, 16)
            sp["1"]["data_enc"] = "vpinest"
        elif c < 0.3:
            sp["t"] = fs("ascii", "ascii", 0, 4)
            sp["t"]["data_enc"] = "vpinest"
            d["t"] = "0200"
        sp[str(where)] = f
        d[str(where)] = "NESTED%d" % where
        flat = {k: {a: ("ascii" if b == "vpinest" else b) for a, b in v.items()} for k, v in sp.items()}
        if what == "dec":
            try:
                outer = (join(build(flat, d)), sp)
            except Exception:
                continue
        elif what == "enc":
            outer = (d, sp)
        else:
            pd = d
            if rng.random() < 0.5:
                try:
                    pd = real.iso8583.encode(dict(d), flat)[1]
                except Exception:
                    pass
            outer = (pd, sp, 10, rng.choice([18, 25, 40]))
        if rng.random() < 0.4 and inner[0] != "pp":
            # the same specification, or even the same arguments, inside
            inner = (inner[0], (inner[1][0], sp))
            if inner[0] == what and rng.random() < 0.5:
                inner = (what, (dict(d) if what == "enc" else outer[0], sp))
            frozen = copy.deepcopy(inner)
        before = copy.deepcopy(outer)
        HOOK[0] = hook
        if what == "pp":
            st = NestStream()
            st.at = rng.randint(1, 12)
            try:
                real.iso8583.pp(outer[0], sp, 10, st, outer[3])
                out = {"k": "ok", "tx": pj.text(st.getvalue())}
            except Exception as e:
                out = {"k": type(e).__name__, "tx": pj.text(st.getvalue())}
        else:
            out = perform(what, outer)
        HOOK[0] = None
        record(s, what, before, out)
        if got:
            record(s, frozen[0], frozen[1], got[0])


# -- threads -----------------------------------------------------------------------

SRC = os.path.join(os.path.realpath(real.REPO), "iso8583") + os.sep


class Baton:
    """runs several calls in threads, one line of library code at a time.

    plan is a list of (thread, lines): thread executes that many lines, then
    the next entry is due; when the plan is used up the threads finish one
    after the other.
    """

    def __init__(self, calls, plan):
        self.calls = calls
        self.plan = list(plan)
        self.outs = [None] * len(calls)
        self.gates = [threading.Semaphore(0) for _ in calls]
        self.live = set(range(len(calls)))
        self.left = 0
        self.cur = None
        self.lines = [0] * len(calls)
        self.switches = 0
        self.done = threading.Event()

    def pick(self):
        """next thread to run"""
        while self.plan:
            t, k = self.plan.pop(0)
            if t in self.live and k > 0:
                self.left = k
                return t
        self.left = -1
        return min(self.live) if self.live else None

    def hand_over(self, me):
        nxt = self.pick()
        if nxt is None:
            self.done.set()
            return
        self.cur = nxt
        if nxt != me:
            self.switches += 1
            self.gates[nxt].release()
            if me is not None and me in self.live:
                self.gates[me].acquire()

    def trace(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.lines[me] += 1
                if self.left > 0:
                    self.left -= 1
                    if self.left == 0:
                        self.hand_over(me)
            return local

        def enter(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                return local
            return None
        return enter

    def body(self, me):
        self.gates[me].acquire()
        sys.settrace(self.trace(me))
        try:
            self.outs[me] = perform(*self.calls[me])
        except BaseException as e:
            self.outs[me] = {"k": "harness-" + type(e).__name__}
        finally:
            sys.settrace(None)
            self.live.discard(me)
            self.hand_over(me)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.calls))]
        for t in ts:
            t.start()
        self.hand_over(None)
        if not self.done.wait(60):
            return False
        for t in ts:
            t.join(10)
        return True


def thread_run(s, calls, plan):
    """run calls under plan; record the outcomes"""
    frozen = copy.deepcopy(calls)
    b = Baton(calls, plan)
    if not b.run():
        for i, (op, args) in enumerate(frozen):
            if b.outs[i] is None:
                b.outs[i] = real._blank("Hang") if op != "pp" else {"k": "Hang", "tx": []}
    for (op, args), o in zip(frozen, b.outs):
        record(s, op, args, o)
    return b


def fresh(calls):
    return copy.deepcopy(calls)


def preemptions(rng, tr, n):
    """two calls; every single point at which the first can be preempted by the second"""
    done = 0
    while done < n:
        fl = field_set(rng, rng.choice([1, 2, 3]))
        if rng.random() < 0.5:
            a, b = some_call(rng, fl), some_call(rng, fl)
        else:
            a, b = some_call(rng), some_call(rng)
        if rng.random() < 0.4:
            b = (b[0], (b[1][0], a[1][1]) + b[1][2:]) if b[0] == a[0] else b
        if a[0] == "pp" and any(k not in a[1][1] for k in a[1][0] if k.isnumeric()):
            continue
        if b[0] == "pp" and any(k not in b[1][1] for k in b[1][0] if k.isnumeric()):
            continue
        probe = Baton(fresh([a, b]), [])
        if not probe.run():
            continue
        total = probe.lines[0]
        points = list(range(1, total + 1))
        if len(points) > n - done:
            points = rng.sample(points, max(1, n - done))
        s = tr.session("preemption")
        for k in points:
            thread_run(s, fresh([a, b]), [(0, k), (1, 10 ** 9)])
            done += 1


def schedules(rng, tr, n):
    """two or three calls, arbitrary fine interleavings"""
    for _ in range(n):
        s = tr.session("schedule")
        fl = field_set(rng, rng.choice([1, 2, 3]))
        m = rng.choice([2, 2, 3])
        calls = []
        while len(calls) < m:
            c = some_call(rng, fl if rng.random() < 0.6 else None)
            if c[0] != "pp" or all(k in c[1][1] for k in c[1][0] if k.isnumeric()):
                calls.append(c)
        q = rng.choice([1, 1, 2, 3, 7, 20])
        plan = [(rng.randrange(m), rng.randint(1, q)) for _ in range(rng.choice([5, 50, 400]))]
        if rng.random() < 0.4:
            plan = [(i % m, q) for i in range(400)]
        thread_run(s, calls, plan)
