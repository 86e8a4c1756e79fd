"""Drivers: pretty printing, starter specifications, serialization and types."""
import collections
import copy
import json
import pickle
import random
import types

import gen
import real
import project as pj
from drivers import (chain, single, small_base, spoil, prefix_candidates, one_field, zero_spec, bitmap_bytes, type_bytes,
                     allspec, StrSub, extreme)
from gen import fs, base, rand_spec, rand_doc, field_set, good_value, value_of_size, build, join


# -- pretty printing -----------------------------------------------------------

PIECES = ["0123456789", "4111111111111111", "abc def", "'", '"', "'\"", "\\", "\\n", "\n", "\r\n", "\t", "\0", " ", "  ", ": ", ": '", "b'",
          "\xe9", "\x7f", "\x80\x85\xa0\xad", "\u20ac", "\u0416", "\u200b", "\u2028", "\ud800", "\ufeff", "\U0001f600", "\U000e0001",
          "\u0301", "\u4e2d\u6587", "{}", "%s", "\x1b[0m", "", "x" * 40, "''", "\\'", "\\\\", "\x0b\x0c\x1c\x1f"]


def pp_text(rng):
    c = rng.random()
    if c < 0.25:
        return "".join(rng.choice(gen.DIG) for _ in range(rng.choice([0, 1, 2, 6, 12, 19, 40, 60, 80, 100, 250, 40 if rng.random() < 0.7 else rng.randint(250, 700)])))
    if c < 0.4:
        return rng.choice(PIECES)
    if c < 0.6:
        return "".join(rng.choice(PIECES) for _ in range(rng.choice([2, 3, 5, 9])))
    if c < 0.8:
        return gen.rand_text(rng, rng.choice(["ascii", "latin1", "utf8", "cp500"]), rng.choice([1, 2, 3, 10, 25, 50, 90, 160]))
    return rng.choice(["A", "'", '"', "\\", "\n", "\x01", "\u200b"]) * rng.choice([1, 2, 3, 20, 70])


def pp_bytes(rng):
    c = rng.random()
    n = rng.choice([0, 1, 1, 2, 3, 4, 8, 12, 16, 30, 60, 100, 160, 40 if rng.random() < 0.8 else rng.randint(160, 600)])
    if c < 0.3:
        return bytes(rng.choice(b"0123456789ABCDEF") for _ in range(n))
    if c < 0.6:
        return bytes(rng.randrange(256) for _ in range(n))
    if c < 0.75:
        return bytes([rng.choice([0, 9, 10, 13, 39, 34, 92, 127, 128, 255, 65])]) * n
    return bytes(rng.choice(b"'\"\\\n\t\x00a\xff:, b") for _ in range(n))


DESCS = ["", "D", "Primary Account Number (PAN)", "Field: 'x'", ": ", "a: b: c", "'quoted'", '"dq"', "  leading", "trailing  ", "\xe9\u20ac",
         "x" * 29, "x" * 30, "x" * 31, "y" * 80, "b'00' ", ": b'1' '2'", "{0}", "%d", "\\n", "Amount, Cardholder Billing Fee", "'", ":",
         "z" * 59, "z " * 40 + "end", "long " * 30, "w" * 99, "w" * 128, "ab cd ef " * 33, "  " * 70, ("d" * 59 + "  ") * 5]
DWS = [30, 30, 0, 1, 2, 3, 10, 29, 31, -1, -10, 5, 50, 80, 60, 64, 65, 79, 99, 100, 127, 128, 129, 255, 256, 300]
LWS = [80, 80, 0, 1, 2, 5, 6, 7, 8, 10, 15, 20, 30, 35, 36, 37, 38, 39, 40, 45, 50, 60, 79, 81, 100, 120, -5, 10 ** 6]


def pp_doc(rng, tr, label="pp"):
    enabled = rng.random() < 0.5
    sp = base(fs("ascii", "ascii", rng.choice([0, 2]), rng.choice([1, 4, 40])) if enabled else
              fs("ascii", "ascii", 0, rng.choice([0, 0, 0, -1])), "ascii", "b")
    isenc = rng.random() < 0.5
    fl = set()
    for _ in range(rng.choice([0, 1, 2, 4, 8, 20])):
        fl.add(rng.choice([rng.randint(1, 192), rng.choice(gen.BORDERS + [1, 10, 11, 19, 20, 21, 99, 100, 101])]))
    if rng.random() < 0.02:
        fl = set(range(1, 193))
    if rng.random() < 0.15:     # numbers no message has
        fl |= {rng.choice([193, 200, 255, 256, 257, 512, 999, 1000, 1001, 1024, 9999, 10000, 65536, 99999, 100000, 999999, rng.randint(193, 999999)])
               for _ in range(rng.choice([1, 1, 2, 4, 30]))}
    for k in fl:
        sp[str(k)] = fs()
    for k in sp:
        sp[k]["desc"] = rng.choice(DESCS)
    ks = [str(k) for k in fl] + [k for k in ("h", "t", "p") if rng.random() < 0.75]
    rng.shuffle(ks)
    d = {}
    for k in ks:
        if isenc:
            d[k] = {"len": rng.choice([b"", b"", b"06", b"\x06", b"\x00\x10", b"\xf1\xf2\xf3", b"'1", b"0012"]), "data": pp_bytes(rng)}
            if rng.random() < 0.3:
                d[k] = {"data": d[k]["data"], "len": d[k]["len"]}
        else:
            d[k] = pp_text(rng)
    if not isenc and rng.random() < 0.15:
        for k in rng.sample(["bm", "x", "comment", " 2", "2 ", "-1", "", "H", "+2", "2a"], rng.choice([1, 2])):
            d[k] = "other"
    if rng.random() < 0.1:
        d[rng.choice([2, None, (1,), 3.5, b"2"])] = "other" if not isenc else {"len": b"", "data": b""}
    return d, sp


def pp_docs(rng, tr, n, per=3):
    for _ in range(n // per):
        d, sp = pp_doc(rng, tr)
        s = tr.session("pp")
        for _ in range(per):
            dw, lw = rng.choice(DWS), rng.choice(LWS)
            if rng.random() < 0.3:
                dw, lw = rng.randint(-2, rng.choice([60, 60, 320])), rng.randint(-2, rng.choice([130, 130, 400]))
            total = sum(len(repr(v)) for v in d.values())
            if lw < dw + 40 and total * max(dw, 10) > 15000:     # a line per character
                lw = dw + rng.randint(20, 80)
            s.pp(d, sp, dw, lw, rng.choice(["stream", "stdout", "write", "stream"]))


def pp_fold(rng, tr, n):
    """one value, line widths swept around the point where it has to be folded"""
    done = 0
    while done < n:
        isenc = rng.random() < 0.5
        k = rng.choice(["h", "t", "p", "2", "12", "128"])
        sp = base(fs("ascii", "ascii", 2, 40), "ascii", "b")
        sp[k] = fs("ascii", "ascii", 2, 40, desc=rng.choice(DESCS))
        if isenc:
            v = pp_bytes(rng)
            d = {k: {"len": rng.choice([b"", b"02", b"\x02", b"\x00\x02"]), "data": v}}
            head = len(repr(d[k]["len"])) + 1 if d[k]["len"] else 0
        else:
            v = pp_text(rng)
            d = {k: v}
            head = 0
        dw = rng.choice([0, 0, 1, 10, 30])
        head += 5 + (dw + 1 if dw > 0 else 0)
        full = head + len(repr(v))
        s = tr.session("pp-fold")
        for lw in {full, full - 1, full + 1, head, head + 1, head + 2, head + 3, head + 4, head + 5, head + 6, head + 7, head + 9,
                   (head + full) // 2, full - 2, full - 3, 1, 0}:
            s.pp(d, sp, dw, lw, rng.choice(["stream", "stdout", "write"]))
            done += 1


def pp_long(rng, tr, n):
    """long values on narrow lines"""
    for _ in range(n):
        isenc = rng.random() < 0.4
        k = rng.choice(["2", "48", "128"])
        sp = base(fs("ascii", "ascii", 2, 40), "ascii", "b")
        sp[k] = fs("ascii", "ascii", 3, 999, desc="long")
        size = rng.choice([255, 256, 257, 399, 401, 500, 512, 513, rng.randint(250, 700)])
        v = "".join(rng.choice(gen.DIG + ("'\"\\\n" if rng.random() < 0.3 else "")) for _ in range(size))
        d = {k: {"len": rng.choice([b"", b"02"]), "data": v.encode()} if isenc else v}
        dw = rng.choice([0, 0, 5, 10, 30])
        s = tr.session("pp-long")
        for lw in [rng.choice([0, 1, dw]), dw + rng.randint(0, 12), rng.randint(dw + 8, dw + 60), rng.randint(80, 900)]:
            s.pp(d, sp, dw, lw, rng.choice(["stream", "stdout", "write"]))


def pp_results(rng, tr, n):
    """what encode and decode return, printed"""
    for _ in range(n):
        fl = field_set(rng, rng.choice([1, 3, 8, 20]))
        sp = rand_spec(rng, fl)
        d = rand_doc(rng, sp, fl)
        s = tr.session("pp-result")
        _, _, r, _ = s.enc(d, sp)
        dw, lw = rng.choice(DWS), rng.choice(LWS)
        s.pp(d, sp, dw, lw)
        if r:
            s.pp(r[1], sp, dw, lw, "stdout")
            _, _, r2, e = s.dec(bytes(r[0]), sp)
            if r2:
                s.pp(r2[0], sp, rng.choice(DWS), lw)
                s.pp(r2[1], sp, dw, rng.choice(LWS))
            w = bytes(r[0])[:rng.randrange(len(r[0]))]
            _, _, _, e = s.dec(w, sp)
            if e is not None and hasattr(e, "doc_dec"):
                s.pp(e.doc_dec, sp, dw, lw)
                s.pp(e.doc_enc, sp, dw, lw)


# -- starter specifications ------------------------------------------------------

def starters():
    return [("default", real.iso8583.specs.default), ("default_ascii", real.iso8583.specs.default_ascii)]


def json_ok(spec):
    try:
        return json.loads(json.dumps(spec)) == spec
    except Exception:
        return False


def any_content(rng, f, n):
    if f["data_enc"] == "b":
        return gen.rand_hex(rng, 2 * n)
    return gen.rand_text(rng, "ascii", n)


def starter(rng, tr, n):
    for name, spec in starters():
        s = tr.session("table-" + name)
        other = sum(pj.key_id(k) is None for k in spec)
        s.table(name, spec, json_ok(spec), other)
        nums = [k for k in range(2, 129) if k != 65 and str(k) in spec]
        for k in nums:
            f = spec[str(k)]
            m = f["max_len"]
            sizes = [m, m + 1]
            sizes += rng.sample([0, 1, m - 1, m // 2, m + 2], 1 if n < 300 else 4)
            if m > 300 and n < 300:
                sizes = [m, m + 1]
            for size in sizes:
                if size < 0:
                    continue
                d = {"t": "0200", str(k): any_content(rng, f, size)}
                s = tr.session("starter-%s-%d" % (name, k))
                a, _, r, _ = s.enc(d, spec, st=name)
                if r:
                    s.dec(bytes(r[0]), spec, st=name)
                # as it would arrive
                elif f["len_type"]:
                    try:
                        s.dec(join(build(spec, d)), spec, st=name)
                    except Exception:
                        pass
                else:
                    w = join(build(spec, d))
                    s.dec(w, spec, st=name)
        # all of them, each at its maximum; decoded also from a message built independently
        d = {"t": "0200"}
        for k in nums:
            d[str(k)] = any_content(rng, spec[str(k)], spec[str(k)]["max_len"])
        s = tr.session("starter-full")
        s.enc(dict(d), spec, st=name)
        s.dec(join(build(spec, d)), spec, st=name)
        for _ in range(2 + n // 300):
            for fl in (nums, [k for k in nums if k <= 64], rng.sample(nums, 20)):
                d = {"t": rng.choice(["0200", "0100", "1804", "ABCD"])}
                for k in fl:
                    f = spec[str(k)]
                    size = f["max_len"] if f["len_type"] == 0 or rng.random() < 0.3 else rng.randint(0, min(99, f["max_len"]))
                    d[str(k)] = any_content(rng, f, size)
                if rng.random() < 0.5:
                    d["h"] = "ignored"
                s = tr.session("starter-all")
                _, _, r, _ = s.enc(d, spec, st=name)
                if r:
                    s.dec(bytes(r[0]), spec, st=name)
                if rng.random() < 0.5:
                    d[str(rng.choice(fl))] += "00"
                    s.enc(d, spec, st=name)
        for t in ("020", "02000", "", "0200"):
            single(tr, "enc", {"t": t}, spec, "type").ev[0]["st"] = name
        for k in (129, 150, 192):
            single(tr, "enc", {"t": "0200", str(k): "1"}, spec, "beyond").ev[0]["st"] = name
        # everything alone and together again, decoded only, from wires built independently
        for k in rng.sample(nums, min(len(nums), 20 + n // 10)):
            f = spec[str(k)]
            size = f["max_len"] if f["len_type"] == 0 else rng.choice([0, 1, f["max_len"]])
            d = {"t": "0200", str(k): any_content(rng, f, size)}
            s = tr.session("starter-wire")
            s.dec(join(build(spec, d)), spec, st=name)


    own_copies(rng, tr)


def own_copies(rng, tr):
    """in a copy, entries are adapted and the others used: any two entries are told apart by some bit of their place"""
    for name, spec in starters():
        keys = [str(k) for k in range(2, 129) if k != 65 and str(k) in spec]
        rng.shuffle(keys)
        for bit in range(len(keys).bit_length()):
            for side in (0, 1):
                adapted = [k for i, k in enumerate(keys) if (i >> bit) & 1 == side]
                rest = [k for k in keys if k not in adapted]
                own = copy.deepcopy(spec) if (bit + side) % 2 else json.loads(json.dumps(spec))
                told = json.loads(json.dumps(spec))
                for k in adapted:
                    for sp in (own, told):
                        sp[k]["max_len"] = 1 if told[k]["max_len"] != 1 else 2
                        sp[k]["data_enc"], sp[k]["len_enc"] = "cp500", "b"
                d = {"t": "0200"}
                for k in rest:
                    f = told[k]
                    d[k] = any_content(rng, f, f["max_len"] if f["len_type"] == 0 else rng.randint(2, min(9, f["max_len"])))
                for k in rng.sample(adapted, 2):
                    d[k] = "9" * told[k]["max_len"]
                s = tr.session("own-copy-" + name)
                _, _, r, _ = s.enc(d, own, st="own", means=told)
                if r:
                    s.dec(bytes(r[0]), own, st="own", means=told)


# -- serialization ------------------------------------------------------------------

def strip(o, *names):
    o = dict(o)
    for k in names:
        o.pop(k, None)
    return o


def error_record(e, s=None):
    """everything an error tells"""
    if isinstance(e, real.iso8583.DecodeError):
        o = real.record_decode_error(e, s)
        extra = {"s": type(e.s).__name__}
    elif isinstance(e, real.iso8583.EncodeError):
        o = real.record_encode_error(e, s)
        o.update(pj.doc(e.doc_dec))
        extra = {}
    else:
        o = real._blank(type(e).__name__)
        extra = {}
    extra.update({"cls": "%s.%s" % (type(e).__module__, type(e).__qualname__), "value": isinstance(e, ValueError),
                  "args": pj.safe_repr(getattr(e, "args", None)), "attrs": sorted(vars(e)) if hasattr(e, "__dict__") else [],
                  "field": pj.safe_repr(getattr(e, "field", None)), "msg": pj.safe_repr(getattr(e, "msg", None)),
                  "pos": pj.safe_repr(getattr(e, "pos", None)), "str": pj.safe_repr(str(e)),
                  "order": [pj.safe_repr(list(getattr(e, a, None) or [])) for a in ("doc_dec", "doc_enc")]})
    return {"o": strip(o, "own", "ty"), "x": json.dumps(extra, sort_keys=True)}


def copies(e):
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield "pickle-%d" % p, lambda p=p: pickle.loads(pickle.dumps(e, p))
    yield "copy", lambda: copy.copy(e)
    yield "deepcopy", lambda: copy.deepcopy(e)
    yield "pickle-twice", lambda: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(e))))
    yield "deepcopy-pickle", lambda: copy.deepcopy(pickle.loads(pickle.dumps(e)))


def attempt(f):
    try:
        return f()
    except Exception as e:
        return e


def same_error(s, e):
    want = error_record(e)
    for name, f in copies(e):
        s.same("C20", want, error_record(attempt(f)), name)
    if not isinstance(e, ValueError):
        s.same("C20", "ValueError", type(e).__name__, "class")


def dec_out(s, spec):
    return strip(real.decode(s, spec)[0], "own")


def enc_out(d, spec):
    """without the type of the caller's dictionary and of its values"""
    o = strip(real.encode(d, spec)[0], "own")
    return dict(o, ty=dict(o["ty"], doc=""), dx=[r for r in o["dx"] if r["v"][:1] != [0]])


def pp_out(d, spec, how="stream"):
    return real.pp(d, spec, 10, 40, how)


def serial(rng, tr, n):
    for _ in range(n):
        fl = field_set(rng, rng.choice([1, 2, 5]))
        sp = rand_spec(rng, fl)
        if rng.random() < 0.1:
            sp = copy.deepcopy(rng.choice(starters())[1])
            fl = [k for k in fl if k <= 128]
        d = rand_doc(rng, sp, fl)
        s = tr.session("serial")
        try:
            sp2 = json.loads(json.dumps(sp))
        except Exception:
            continue
        d2 = dict(d)
        s.same("C20", enc_out(d, sp), enc_out(d2, sp2), "spec-json-encode")
        r = attempt(lambda: real.iso8583.encode(dict(d), sp))
        if not isinstance(r, tuple):
            same_error(s, r)
            continue
        w = bytes(r[0])
        s.same("C20", dec_out(w, sp), dec_out(w, sp2), "spec-json-decode")
        r = attempt(lambda: real.iso8583.decode(w, sp))
        if isinstance(r, tuple):
            doc = r[0]
            doc2 = attempt(lambda: json.loads(json.dumps(doc)))
            s.same("C20", pj.doc(doc), pj.doc(doc2), "doc-json")
            if isinstance(doc2, dict):
                s.same("C20", enc_out(dict(doc), sp), enc_out(doc2, sp), "doc-json-encode")
                s.same("C20", pp_out(doc, sp), pp_out(doc2, sp2), "doc-json-pp")
        # failing calls
        w2 = rng.choice([w[:-1], w + b"x", w[:rng.randrange(len(w) + 1)], bytes(b ^ 0x80 for b in w)])
        e = attempt(lambda: real.iso8583.decode(bytearray(w2) if rng.random() < 0.3 else w2, sp))
        s.same("C20", dec_out(w2, sp), dec_out(w2, sp2), "spec-json-decode")
        if not isinstance(e, tuple):
            same_error(s, e)
        d3 = dict(d)
        c = rng.random()
        if c < 0.5 and fl:
            k = str(rng.choice(fl))
            d3[k] = spoil(rng, sp[k])
        elif c < 0.6:
            d3.pop("t")
        elif c < 0.7:
            d3[rng.choice(["0", "193", 5, "02", ("a: field b",), (": field p", 2), b": field p", frozenset([": field h pos 3"]), "\u0662", None,
                           "%s", (2.5, "%d {} {0}")])] = "x"
        elif c < 0.77:      # a long message
            if rng.random() < 0.5:
                d3.update({str(rng.randint(193, 10 ** rng.randint(3, 9))): "" for _ in range(rng.choice([10, 40, 200]))})
            else:
                d3["2" * rng.choice([90, 150, 400, 4400])] = d3["\u0662" * rng.choice([1, 100, 300])] = ""
        elif c < 0.85:
            d3[str(rng.choice(fl or [2]))] = rng.choice([None, 5, ["a"]])
        e = attempt(lambda: real.iso8583.encode(d3, sp))
        if not isinstance(e, tuple):
            same_error(s, e)
        s.same("C20", enc_out(dict(d3), sp), enc_out(dict(d3), sp2), "spec-json-encode")


class OwnDecodeError(real.iso8583.DecodeError):
    """what a caller may derive"""


class OwnEncodeError(real.iso8583.EncodeError):
    pass


def raised_classes(rng, tr, n):
    """errors constructed directly and subclasses of them"""
    D, E = real.iso8583.DecodeError, real.iso8583.EncodeError
    s = tr.session("errors")
    for _ in range(max(5, n // 20)):
        msg = rng.choice(["", "x", "Field data is 1", "\u20ac", "a: b", "%s {}"])
        f = rng.choice(["h", "t", "p", "1", "2", "192", ""])
        D, E = rng.choice([(real.iso8583.DecodeError, real.iso8583.EncodeError), (OwnDecodeError, OwnEncodeError)])
        e = D(msg, rng.choice([b"", b"ab", bytearray(b"\x00\xff")]), {"t": "0200"}, {"t": {"len": b"", "data": b"0200"}}, rng.choice([0, 1, 77]), f)
        same_error(s, e)
        s.same("C20", "%s: field %s pos %d" % (e.msg, e.field, e.pos), str(e), "text")
        e = E(msg, {"t": "0200", "2": ""}, {"t": {"len": b"", "data": b"0200"}}, f)
        same_error(s, e)
        s.same("C20", "%s: field %s" % (e.msg, e.field), str(e), "text")
    s.same("C20", True, issubclass(D, ValueError) and issubclass(E, ValueError), "ValueError")
    s.same("C20", False, issubclass(D, E) or issubclass(E, D), "distinct")


# -- buffer and mapping types ---------------------------------------------------------

class Bytes(bytes):
    pass


class ByteArray(bytearray):
    pass


class Map(collections.abc.Mapping):
    """the bare Mapping protocol"""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class Missing(dict):
    """fields defined on demand"""

    def __init__(self, d, hidden):
        super().__init__((k, v) for k, v in d.items() if k not in hidden)
        self._h = {k: d[k] for k in hidden}

    def __missing__(self, k):
        return self._h[k]


def mappings(rng, sp):
    full = {k: dict(v) for k, v in sp.items()}
    dd = collections.defaultdict(dict)
    dd.update(full)
    ks = list(full)
    yield "MappingProxyType", types.MappingProxyType({k: types.MappingProxyType(v) for k, v in full.items()})
    yield "OrderedDict", collections.OrderedDict((k, collections.OrderedDict(v)) for k, v in full.items())
    yield "ChainMap", collections.ChainMap({k: full[k] for k in ks[::2]}, {k: full[k] for k in ks})
    yield "UserDict", collections.UserDict({k: collections.UserDict(v) for k, v in full.items()})
    yield "Mapping", Map({k: Map(v) for k, v in full.items()})
    yield "Missing", Missing(full, [k for k in ks if k not in ("h", "t", "p")][:3])
    rev = dict(reversed([(k, dict(reversed(list(v.items())))) for k, v in full.items()]))
    yield "reversed", rev
    yield "ChainMap-field", {k: collections.ChainMap({}, v) for k, v in full.items()}


def types_(rng, tr, n):
    budget = 60000
    for _ in range(n):
        if rng.random() < 0.4:
            case = extreme(rng, budget)
            if case is None:
                continue
            sp, d, size = case
            budget -= size
            try:
                w = join(build(sp, d))
            except Exception:
                w = b"0200" + bytes(8)
            variants(rng, tr.session("types-extreme"), d, sp, w, 0.8)
            continue
        fl = field_set(rng, rng.choice([1, 2, 5]))
        sp = rand_spec(rng, fl)
        d = rand_doc(rng, sp, fl)
        if rng.random() < 0.3 and fl:
            k = str(rng.choice(fl))
            d[k] = spoil(rng, sp[k])
        if rng.random() < 0.1 and fl:
            sp.pop(str(rng.choice(fl)))
        s = tr.session("types")
        try:
            w = join(build(sp, d))
        except Exception:
            try:
                w = join(build(sp, {k: v for k, v in rand_doc(rng, sp, [f for f in fl if str(f) in sp]).items()}))
            except Exception:
                w = b"0200" + bytes(8)
        c = rng.random()
        if c < 0.3:
            w = w[:rng.randrange(len(w) + 1)]
        elif c < 0.4:
            w += b"\x00"
        elif c < 0.6 and w:
            b = bytearray(w)
            b[rng.randrange(len(b))] = rng.randrange(256)
            w = bytes(b)
        variants(rng, s, d, sp, w, 0.5)


def variants(rng, s, d, sp, w, skip):
    """the same call with arguments of other types"""
    want = dec_out(w, sp)
    s.dec(w, sp)
    s.dec(bytearray(w), sp)
    for cls in (bytearray, Bytes, ByteArray):
        o = real.decode(cls(w), sp)[0]
        s.same("C22", want, strip(o, "own"), cls.__name__)
    ba = bytearray(w)
    real.decode(ba, sp)
    s.same("C22", list(w), list(ba), "buffer-changed")
    we = enc_out(dict(d), sp)
    s.enc(dict(d), sp)
    wp = pp_out(d, sp)
    for name, m in mappings(rng, sp):
        if rng.random() < skip:
            continue
        s.same("C22", want, dec_out(w, m), "decode-" + name)
        s.same("C22", we, enc_out(dict(d), m), "encode-" + name)
        s.same("C22", wp, pp_out(d, m, rng.choice(["stream", "write"])), "pp-" + name)
    # dictionaries of other classes, and other orders
    items = list(d.items())
    rng.shuffle(items)
    dd = collections.defaultdict(str)
    dd.update(items)
    s.same("C22", we, enc_out(dict(items), sp), "encode-order")
    # (type names tell the caller's own class)
    we = strip(we, "ty")
    s.same("C22", we, strip(enc_out(collections.OrderedDict(items), sp), "ty"), "encode-OrderedDict")
    s.same("C22", we, strip(enc_out(dd, sp), "ty"), "encode-defaultdict")
    # strings of other classes
    s.same("C22", we, strip(enc_out({k: StrSub(v) if isinstance(v, str) else v for k, v in d.items()}, sp), "ty"),
           "encode-str-subclass")


# -- keys that must not matter -----------------------------------------------------------

IGNORED = ["bm", "P", "H", "T", " 2", "2 ", "+2", "-2", "-1", "2.0", "1e1", "0x2", "", "x", "comment", "2a", "a2", "None", "1_0", "2\n", "t ",
           "\t3", "h2", "len", "data", "\u2161a", "129 ", "Bitmap", "65a", "p1", "pp", "1 ", "F2", "-0", "2,3", "2-3", "1.", ".5", "\x002", "2\x00"]


def control(rng, tr, n):
    for _ in range(n):
        fl = field_set(rng, rng.choice([0, 1, 2, 5]))
        sp = rand_spec(rng, fl)
        d = rand_doc(rng, sp, fl)
        if rng.random() < 0.2 and fl:
            k = str(rng.choice(fl))
            d[k] = spoil(rng, sp[k])
        ks = rng.sample(IGNORED, rng.choice([1, 1, 2, 5]))
        d2 = dict(d)
        for k in ks:
            d2[k] = rng.choice(["x", "", None, 5, b"x", "0200", ["l"], {"len": b"", "data": b""}])
        items = list(d2.items())
        rng.shuffle(items)
        sp2 = dict(sp)
        if rng.random() < 0.3:
            for k in ks:
                sp2[k] = fs("ascii", "ascii", 0, 1)
        s = tr.session("control")
        a, oa, _, _ = s.enc(dict(d), sp)
        b, ob, _, _ = s.enc(dict(items), sp2)
        keep = ("k", "ek", "el", "ed", "ex", "raw", "f", "msg", "txt", "dk", "dv")
        s.same("C21", {k: oa[k] for k in keep}, {k: ob[k] for k in keep}, "influences")
