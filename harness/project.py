"""Projection of Python objects onto the values the specification talks about.

Keys: 'h' -> -3, 't' -> -2, 'p' -> -1, canonical decimal n -> n; every other
key goes to a list of extra keys.  Text is a list of code points, bytes a list
of ints, anything that is not text is [-1].
"""
import codecs
import re

CANON = re.compile(r"(0|[1-9][0-9]{0,5})\Z", re.ASCII)
KEY = {"h": -3, "t": -2, "p": -1}
NAME = {v: k for k, v in KEY.items()}
BADF = -99

MODEL_CODEC = {
    "ascii": "ascii", "iso8859-1": "latin1", "cp500": "cp500", "cp037": "cp037",
    "cp1252": "cp1252", "koi8-r": "koi8r", "cp437": "cp437", "cp273": "cp273",
    "utf-8": "utf8", "utf-16-be": "utf16be", "undefined": "fails",
}


def key_id(k):
    """canonical key -> int, else None"""
    if type(k) is not str and isinstance(k, str):
        k = str(k)
    if not isinstance(k, str):
        return None
    if k in KEY:
        return KEY[k]
    if CANON.match(k):
        return int(k)
    return None


def key_name(i):
    return NAME.get(i, str(i))


def text(v):
    return [ord(c) for c in v] if isinstance(v, str) else [-1]


def octets(v):
    return list(v) if isinstance(v, (bytes, bytearray)) else [-1]


def safe_repr(v):
    try:
        return ascii(v)
    except Exception as e:  # an object that cannot be shown
        return "<%s>" % type(v).__name__


def extra_key(k, v):
    if isinstance(k, str):
        return {"t": "str", "v": text(k), "y": safe_repr(v)[:200]}
    return {"t": "obj", "v": text(safe_repr(k)[:100]), "y": safe_repr(v)[:200]}


SHADOW = "\0value "


def shadows(d):
    """values that are not plain text, so that a change of one is seen; the
    bitmaps belong to the library"""
    return [{"t": "str", "v": text(SHADOW + str(i)), "y": re.sub("0x[0-9a-f]+", "0x", type(v).__name__ + ":" + safe_repr(v))[:200]}
            for i, v in ((key_id(k), v) for k, v in d.items()) if i not in (None, -1, 1, 65) and type(v) is not str]


def doc(d, given=False):
    """decoded dictionary -> dk, dv, dx; given: it is an argument of the caller"""
    dk, dv, dx = [], [], []
    if not isinstance(d, dict):
        return {"dk": [], "dv": [], "dx": [{"t": "notdict", "v": [], "y": safe_repr(d)[:200]}]}
    for k, v in d.items():
        i = key_id(k)
        if i is None:
            dx.append(extra_key(k, v))
        else:
            dk.append(i)
            dv.append(text(v))
    if given:
        dx += shadows(d)
    dx.sort(key=lambda r: (r["t"], r["v"], r["y"]))
    order = sorted(range(len(dk)), key=lambda j: dk[j])
    return {"dk": [dk[j] for j in order], "dv": [dv[j] for j in order], "dx": dx}


def enc(d):
    """encoded dictionary -> ek, el, ed, ex"""
    rows, ex = [], []
    if not isinstance(d, dict):
        return {"ek": [], "el": [], "ed": [], "ex": [{"t": "notdict", "v": [], "y": safe_repr(d)[:200]}]}
    for k, v in d.items():
        i = key_id(k)
        if i is None:
            ex.append(extra_key(k, v))
        elif not isinstance(v, dict) or set(v) != {"len", "data"}:
            ex.append({"t": "entry", "v": text(str(k)), "y": safe_repr(v)[:200]})
        else:
            rows.append((i, octets(v["len"]), octets(v["data"])))
    rows.sort()
    ex.sort(key=lambda r: (r["t"], r["v"], r["y"]))
    return {"ek": [r[0] for r in rows], "el": [r[1] for r in rows], "ed": [r[2] for r in rows], "ex": ex}


def codec_id(name):
    if name in ("b", "bcd"):
        return name
    try:
        n = codecs.lookup(name).name
    except Exception:
        return "?none"
    if n in MODEL_CODEC:
        return MODEL_CODEC[n]
    if not getattr(codecs.lookup(name), "_is_text_encoding", True):
        return "?nontext"
    return "?other-" + n


NOT_A_SIZE = -77777


def size(v):
    return int(v) if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2 ** 30 else NOT_A_SIZE


def field_spec(f):
    de = f.get("data_enc")
    return {
        "de": codec_id(de) if de != "bcd" else "?none",
        "le": codec_id(f.get("len_enc")),
        "lt": size(f.get("len_type")),
        "ml": size(f.get("max_len")),
        "nib": f.get("len_count", "bytes") == "nibbles",
        "lp": text(f.get("left_pad", "")),
        "rp": text(f.get("right_pad", "")),
        "desc": text(f.get("desc", "")),
    }


def plain(spec):
    """any mapping used as a specification -> dict of dicts"""
    if type(spec) is dict and all(type(v) is dict for v in spec.values()):
        return spec
    return {k: dict(spec[k]) for k in spec}


class SpecTable:
    """specification contents seen in a trace, numbered from 1"""

    def __init__(self):
        self.rows = []
        self.src = []
        self.index = {}

    def add(self, spec):
        spec = plain(spec)
        # the full content decides identity, also what the model abstracts from
        src = repr(spec)
        if src not in self.index:
            ks, vs = [], []
            for k in spec:
                i = key_id(k)
                if i is not None:
                    ks.append(i)
                    vs.append(field_spec(spec[k]))
            order = sorted(range(len(ks)), key=lambda j: ks[j])
            self.rows.append({"ks": [ks[j] for j in order], "vs": [vs[j] for j in order]})
            self.src.append(src)
            self.index[src] = len(self.rows)
        return self.index[src]


def type_name(v):
    if type(v) is dict:
        return "dict(%s)" % ",".join(sorted("%s:%s" % (k, type(x).__name__) for k, x in v.items()))
    return type(v).__name__


def uniq(it):
    return sorted(set(it))


def types(d, e, raw=None):
    isd, ise = isinstance(d, dict), isinstance(e, dict)
    return {
        "doc": type(d).__name__, "enc": type(e).__name__, "raw": type(raw).__name__,
        "dk": uniq(type(k).__name__ for k in d) if isd else [],
        "dv": uniq(type(v).__name__ for v in d.values()) if isd else [],
        "ek": uniq(type(k).__name__ for k in e) if ise else [],
        "ev": uniq(type_name(v) for v in e.values()) if ise else [],
    }


def err_field(f):
    i = key_id(f)
    return BADF if i is None else i


def num(v):
    return v if isinstance(v, int) and abs(v) < 2 ** 30 else -12345
